From d3ffb5fd654093ed982390a83c3bb01610730ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 01/41] fix: do not share the true label of a sample between
 worker threads

---
 src/ModelDescription.tpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index aedfb7d..855815f 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -196,14 +196,14 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     // Calculate the loss based on the given label
     assignLoss(result, label);
 
-    // Provide the label to the output layer for gradient calculations
+    // Get the gradient at the output from this result's own label. The output layer is shared by
+    // all of the worker threads, so the label cannot be handed over by storing it in the layer
     assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
-    output_layer->assignTrueLabel(result.true_label_idx);
+    SimpleMatrix<double> dLdz = output_layer->getdLdX(result.layer_inputs.back(), result.true_label_idx);
 
-    // For each of the layers, calculate the corresponding gradient and adjust the weights accordingly
-    SimpleMatrix<double> dLdz;
-    for (int i = layers.size()-1; i >= 0; i--){
+    // For each of the remaining layers, calculate the corresponding gradient and adjust the weights accordingly
+    for (int i = layers.size()-2; i >= 0; i--){
         // stic(layers[i]->name.c_str());
 
         const SimpleMatrix<float>& layer_input  = result.layer_inputs.at(i);
-- 
2.43.0


From 3ab528643bbb886c6304b702d6747f7ebab099ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:58 +0000
Subject: [PATCH 02/41] fix: reject labels the model does not know before using
 their index

---
 src/ModelDescription.tpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 855815f..7283cdb 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -185,6 +185,9 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
 template<typename InputDataType, typename OutputDataType>
 void ModelDescription<InputDataType, OutputDataType>::assignLoss(ModelResults<OutputDataType>& result, OutputDataType label){
     result.true_label_idx = std::distance(std::begin(output_labels), std::find(std::begin(output_labels), std::end(output_labels), label));
+    if (result.true_label_idx >= output_labels.size()){
+        throw std::out_of_range("Cannot assign a loss for a label that is not one of the model's output labels");
+    }
     result.true_label = label;
     result.loss = lossFcn(result.layer_inputs.back(), result.true_label_idx);
 }
-- 
2.43.0


From a88fb5c9041d2c42baeb4839aed1376841ede29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:01 +0000
Subject: [PATCH 03/41] fix: initialize a connected layer only once when
 workers reach it concurrently

---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index eb60755..6bf1f2d 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <mutex>
 #include "cnn_from_scratch/Layers/ConnectedLayer.h"
 
 namespace my_cnn{
@@ -47,6 +48,10 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
+    // Worker threads reach this layer concurrently, only one of them may initialize it
+    static std::mutex init_mtx;
+    std::lock_guard<std::mutex> lock(init_mtx);
+
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-- 
2.43.0


From f5dd8df8c7983afdd6a8528f6254f6a770ce47b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:07 +0000
Subject: [PATCH 04/41] fix: average only the gradients of the current batch

---
 src/Layers/ConnectedLayer.cpp | 15 +++++++++++++--
 src/Layers/Kernel.cpp         | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 6bf1f2d..29b419c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -30,14 +30,25 @@ void ConnectedLayer::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
     // Accumulate the stored gradientss
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        // The last batch of an epoch may not fill every slot
+        if (weight_gradients_[i].size() == 0) continue;
+
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad += bias_gradients_[i];  
+
+        // Make sure that the next batch cannot reuse this gradient
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        num_gradients++;
     }
 
+    if (num_gradients == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 543b936..ee2b36b 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -51,14 +51,25 @@ void Kernel::applyBatch(double learning_rate){
     SimpleMatrix<double> avg_bias_grad(biases.dim(), 0.0);
 
     // Accumulate the stored gradientss
+    size_t num_gradients = 0;
     for (size_t i = 0; i < weight_gradients_.size(); i++){
+        // The last batch of an epoch may not fill every slot
+        if (weight_gradients_[i].size() == 0) continue;
+
         avg_weight_grad += weight_gradients_[i]; 
         avg_bias_grad   += bias_gradients_[i];  
+
+        // Make sure that the next batch cannot reuse this gradient
+        weight_gradients_[i] = SimpleMatrix<double>();
+        bias_gradients_[i]   = SimpleMatrix<double>();
+        num_gradients++;
     }
 
+    if (num_gradients == 0) return;
+
     // Average the gradients
-    avg_weight_grad /= weight_gradients_.size();
-    avg_bias_grad   /= bias_gradients_.size();
+    avg_weight_grad /= num_gradients;
+    avg_bias_grad   /= num_gradients;
 
     // Apply
     weights -= learning_rate * avg_weight_grad;
-- 
2.43.0


From 4ef5482ed29e379f221d91045ed137f2d7edf60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:28 +0000
Subject: [PATCH 05/41] fix: evaluate the activation gradient at the
 activation's input

---
 include/cnn_from_scratch/Layers/Activation.h | 6 +++---
 src/Layers/Activation.cpp                    | 9 +++++----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/Activation.h b/include/cnn_from_scratch/Layers/Activation.h
index 23dc990..f661de2 100644
--- a/include/cnn_from_scratch/Layers/Activation.h
+++ b/include/cnn_from_scratch/Layers/Activation.h
@@ -75,16 +75,16 @@ public:
     SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t idx = 0) override;
 
     /**
-     * Return the gradient of the activation function for the given activated matrix 
+     * Return the gradient of the activation function at the given (not yet activated) input matrix 
      */
-    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& activated_output) const;
+    SimpleMatrix<double> activationGradient(const SimpleMatrix<double>& input) const;
 
     /**
      * Given the loss gradient from the previous layer, return the loss gradient
      * to be propagated to subsequent layers 
      */
     SimpleMatrix<double> propagateBackward(
-        const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+        const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
         const SimpleMatrix<double>& dLdZ, size_t, bool) override;
 
     /**
diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 44701cc..32fabe9 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -64,18 +64,19 @@ SimpleMatrix<double> Activation::propagateForward(SimpleMatrix<double>&& input,
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
-SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& activated_output) const {
-    return apply(activated_output, activationGradientFunction_);
+SimpleMatrix<double> Activation::activationGradient(const SimpleMatrix<double>& input) const {
+    return apply(input, activationGradientFunction_);
 }
 
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Activation::propagateBackward(
-    const SimpleMatrix<double>&, const SimpleMatrix<double>& Z, 
+    const SimpleMatrix<double>& X, const SimpleMatrix<double>&, 
     const SimpleMatrix<double>& dLdZ, size_t, bool)
 {
-    return dLdZ * activationGradient(Z);
+    // The gradient functions take the value that was activated, not the activated output
+    return dLdZ * activationGradient(X);
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 3244427efeedc862643a618acc9f1ee1cb7efeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:34 +0000
Subject: [PATCH 06/41] fix: allow a half turn of non-square matrices so
 kernels can backpropagate them

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a624eda..083dd6c 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -424,7 +424,8 @@ auto transpose(MatrixType&& M){
 template<size_t NumSteps, typename MatrixType, typename = IsMatrixBase<MatrixType>>
 auto rotate(MatrixType&& M){
     static_assert(NumSteps > 0 && NumSteps < 4);
-    if (!M.isSquare()){
+    // A half turn keeps the dimensions, so it is well defined for any shape
+    if (NumSteps != 2 && !M.isSquare()){
         std::stringstream ss;
         ss << "Cannot rotate matrix of size " << M.dim() << " because it is not square";
         throw MatrixTransformException(ss.str());
-- 
2.43.0


From 9ec56d04e0812bee4214ebe2c039f0792c169cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 07/41] fix: report failures in training workers to the caller
 of train

---
 src/ModelDescription.tpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 7283cdb..4739b08 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -2,6 +2,7 @@
 #include <thread>
 #include <fstream>
 #include <atomic>
+#include <exception>
 #include "cnn_from_scratch/imageUtil.h"
 #include "cnn_from_scratch/timerConfig.h"
 #include "cnn_from_scratch/Serialization.h"
@@ -235,8 +236,13 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
         // Assign each thread to propagate the values
         int thread_idx = 0;
         std::mutex data_mtx;
+        std::exception_ptr failure;
+        auto record_failure = [&](){
+            std::lock_guard<std::mutex> lock(data_mtx);
+            if (!failure) failure = std::current_exception();
+        };
         for (std::thread& t : workers){
-            t = std::thread([&, thread_idx](){
+            auto work = [&, thread_idx](){
                 // Determine the final input index that this thread is responsible for
                 size_t start  = thread_idx * work_count;
                 size_t cutoff = std::min((thread_idx+1) * work_count, params.batch_size);
@@ -257,16 +263,30 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
                     if (result.label_idx == result.true_label_idx)
                         success_count++;
                 }
-            });
+            };
+
+            // A failure may not leave the thread, it is handed to the caller once all workers are done
+            try{
+                t = std::thread([&, work](){
+                    try{ work(); }
+                    catch(...){ record_failure(); }
+                });
+            }catch(...){
+                record_failure();
+                break;
+            }
 
             thread_idx++;
         }
 
         // Wait for all threads to finish
         for (std::thread& t : workers){
-            t.join();
+            if (t.joinable()) t.join();
         }
 
+        // Do not apply an incomplete batch
+        if (failure) std::rethrow_exception(failure);
+
         // Apply the update step
         for (auto& layer : layers){
             layer->applyBatch(params.learning_rate);
-- 
2.43.0


From 9c44aa2b246b7f427d5b660bce10aa514dc8a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:31 +0000
Subject: [PATCH 08/41] fix: save the stride of a pooling layer instead of its
 size twice

---
 src/Layers/Pooling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 05db568..2c0ee1c 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -146,8 +146,8 @@ std::string Pooling::serialize() const {
 
     // Record the stride
     ss << "stride\n";
-    serialization::place(ss, dim_.x, "x");
-    serialization::place(ss, dim_.y, "y");
+    serialization::place(ss, stride_.x, "x");
+    serialization::place(ss, stride_.y, "y");
 
     return ss.str();
 }
-- 
2.43.0


From 46bf7d3114de8c7be3e332d2045c8f3b26375dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:33 +0000
Subject: [PATCH 09/41] fix: use the loaded activation function after
 deserializing an activation layer

---
 src/Layers/Activation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 32fabe9..0232bfc 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -98,6 +98,8 @@ bool Activation::deserialize(std::istream& is) {
     std::string activation_string;
     std::getline(is, activation_string);
     activation_ = fromString(activation_string);
+    activationFunction_ = activation_functions()[activation_];
+    activationGradientFunction_ = activation_gradients()[activation_];
     return true;
 }
 
-- 
2.43.0


From 4da3ec7e1ac8ae6ea461e4e5f4ef2cf9e7803708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:37 +0000
Subject: [PATCH 10/41] fix: let a loaded connected layer backpropagate

---
 src/Layers/ConnectedLayer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 29b419c..c89826c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -86,6 +86,8 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     }
     // Otherwise check to make sure the size is correct
     else{
+        // The input shape is not part of a saved layer, so take it from the first input after loading
+        if (input_dim_.size() == 0) input_dim_ = input_data.dim();
         return ( weights.dims() == expected_size );
     }
 }
-- 
2.43.0


From 2cb6cdd4c976f105323e058657ef10ae91bfada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:43 +0000
Subject: [PATCH 11/41] fix: save matrices without losing precision

---
 src/SimpleMatrix.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index ccb2b11..9d6bfcb 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -223,7 +223,9 @@ size_t SimpleMatrix<T>::maxIndex() const{
 
 template<typename T>
 void SimpleMatrix<T>::serialize(std::ostream& os) const {
-    os << std::fixed;
+    // Write enough digits to get exactly the same values back
+    const std::streamsize precision = os.precision(std::numeric_limits<T>::max_digits10 - 1);
+    os << std::scientific;
     os << dim_.x << " " << dim_.y << " " << dim_.z << "\n";
     for (int z = 0; z < dim_.z; z++){
         for (int x = 0; x < dim_.x; x++){
@@ -236,6 +238,7 @@ void SimpleMatrix<T>::serialize(std::ostream& os) const {
         os << "\n";
     }
     os << std::defaultfloat;
+    os.precision(precision);
 }
 
 template<typename T>
-- 
2.43.0


From c3c68a5a483dd4db883d30b59e1769ab607a66e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:54 +0000
Subject: [PATCH 12/41] fix: make loadModel compile, load every layer type and
 reject missing or incomplete files

---
 include/cnn_from_scratch/Serialization.h | 22 ++++++++++++++
 src/ModelDescription.tpp                 | 38 +++++++++++++++++-------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/include/cnn_from_scratch/Serialization.h b/include/cnn_from_scratch/Serialization.h
index 77b8358..d77a9c3 100644
--- a/include/cnn_from_scratch/Serialization.h
+++ b/include/cnn_from_scratch/Serialization.h
@@ -3,6 +3,7 @@
 #include <string>
 #include <limits>
 #include <istream>
+#include <sstream>
 #include <type_traits>
 
 namespace my_cnn{
@@ -64,6 +65,27 @@ static inline T expect(std::istream& is, const std::string& expected){
     }
 }
 
+/**
+ * Given an input stream, read the value that makes up the whole next line. Strings
+ * may contain spaces. A last line without a line ending was cut off and is an error
+ * @return          True if a complete line with a valid value was read
+ */
+template<typename T>
+static inline bool readValue(std::istream& is, T& value){
+    std::string line;
+    std::getline(is, line);
+    if (!is.good()) return false;
+
+    if constexpr (std::is_same_v<T, std::string>){
+        value = line;
+        return true;
+    }else{
+        std::stringstream ss(line);
+        ss >> value;
+        return !ss.fail();
+    }
+}
+
 } // namespace serialization
 
 } // namespace my_cnn
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 4739b08..63cfeba 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -89,27 +89,36 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
     STIC;
     std::ifstream f(filename);
 
+    // Load into a separate model, so that this one is not changed unless the whole file could be read
+    ModelDescription<InputDataType, OutputDataType> loaded;
+    bool complete = false;
+
     std::string line;
-    while (std::getline(f, line)){
+    while (!complete && std::getline(f, line)){
         // Read the next line without extracting it
         std::string label = serialization::readLine(f);
         
         // Determine the type of layer coming next
         try{
             if (label == "Kernel"){
-                Kernel& K = addKernel({0, 0, 0}, 1, LINEAR);
+                Kernel& K = loaded.addKernel({0, 0, 0}, 1);
                 if (not K.deserialize(f)) return false;
             }
 
             else if (label == "Pooling"){
-                Pooling& P = addPooling({0, 0}, {0, 0}, MAX);
+                Pooling& P = loaded.addPooling({0, 0}, {0, 0}, MAX);
                 if (not P.deserialize(f)) return false;
             }
 
             else if (label == "Connected Layer"){
-                ConnectedLayer& C = addConnectedLayer(0);
+                ConnectedLayer& C = loaded.addConnectedLayer(0);
                 if (not C.deserialize(f)) return false;
             }
+
+            else if (label == "Activation"){
+                Activation& A = loaded.addActivation(LINEAR);
+                if (not A.deserialize(f)) return false;
+            }
             
             else if (label == "Softmax"){
                 // Determine the number of output labels
@@ -118,25 +127,32 @@ bool ModelDescription<InputDataType, OutputDataType>::loadModel(std::string file
                 int size = serialization::expect<int>(f, "Output labels");
 
                 // Load the output vector
-                std::vector<OutputDataType> labels(size);
+                std::vector<OutputDataType> labels;
                 for (int i = 0; i < size; i++){
                     OutputDataType label;
-                    f >> label;
-                    serialization::clearLine(f);
-                    labels[i] = label;
+                    if (not serialization::readValue(f, label)) return false;
+                    labels.push_back(label);
                 }
 
                 // Set the vector with softmax activation
-                setOutputLabels(labels, SOFTMAX);
+                loaded.setOutputLabels(labels, SOFTMAX);
+                complete = not f.fail();
             }
+
+            else return false;
         }
         
-        catch(std::runtime_error& e){
-            std::cout << "loadModel runtime error: " << e.what() << "\n";
+        catch(std::exception& e){
+            std::cout << "loadModel error: " << e.what() << "\n";
             return false;
         }
     }
 
+    // The output labels come last, without them the file is missing or was cut off
+    if (!complete) return false;
+
+    loaded.loss_function = loss_function;
+    *this = std::move(loaded);
     return true;
 }
 
-- 
2.43.0


From 9171615ae6be0584e95de7fa754d8efd170b05f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:34 +0000
Subject: [PATCH 13/41] fix: load models whose connected layers have not been
 used before saving

---
 src/Layers/ConnectedLayer.cpp | 4 +++-
 src/SimpleMatrix.tpp          | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index c89826c..4e190b4 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -179,7 +179,9 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     if (!weights.deserialize(is)) return false;
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
-    initialized_ = true;
+
+    // A layer that was saved before it was ever used has no weights yet
+    initialized_ = weights.size() > 0;
     return true;
 }
 
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 9d6bfcb..1be001c 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -248,6 +248,7 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     is >> dim.x;
     is >> dim.y;
     is >> dim.z;
+    serialization::clearLine(is);
 
     if (is.fail()) return false;
     this->resize(dim);
-- 
2.43.0


From 4e95c9c4b68e62d19adbaebc43bcfc2aac1421aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:19 +0000
Subject: [PATCH 14/41] fix: reject saved layers whose sizes are invalid or do
 not fit together

---
 src/Layers/ConnectedLayer.cpp | 5 +++++
 src/Layers/Kernel.cpp         | 4 ++++
 src/Layers/Pooling.cpp        | 3 +++
 src/SimpleMatrix.tpp          | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 4e190b4..8489f9c 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -180,6 +180,11 @@ bool ConnectedLayer::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
+    // Check that the sizes that were read fit together
+    if (weights.dim().x != stream_dim.x || weights.dim().y != stream_dim.y) return false;
+    if (biases.dim() != dim3(biases.size(), 1, 1)) return false;
+    if (weights.size() > 0 && weights.dim() != dim3(biases.size(), stream_dim.y, 1)) return false;
+
     // A layer that was saved before it was ever used has no weights yet
     initialized_ = weights.size() > 0;
     return true;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index ee2b36b..c4d3228 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -269,6 +269,10 @@ bool Kernel::deserialize(std::istream& is) {
     serialization::expect<void>(is, "biases");
     if (!biases.deserialize(is)) return false;
 
+    // Check that the sizes that were read fit together
+    if (biases.dim() != dim3(num_filters, 1, 1)) return false;
+    if (weights.dim() != dim3(dim_.x, dim_.y, dim_.z*num_filters)) return false;
+
     return true;
 }
 
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 2c0ee1c..dc69a72 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -179,6 +179,9 @@ bool Pooling::deserialize(std::istream& is) {
     stride_.x = serialization::expect<int>(is, "x");
     stride_.y = serialization::expect<int>(is, "y");
 
+    // A pool needs a size and has to advance
+    if (dim_.x <= 0 || dim_.y <= 0 || stride_.x <= 0 || stride_.y <= 0) return false;
+
     return true;
 }
 
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 1be001c..de37663 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -251,6 +251,10 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
     serialization::clearLine(is);
 
     if (is.fail()) return false;
+
+    // Reject sizes that no matrix can have
+    if (dim.x < 0 || dim.y < 0 || dim.z < 0) return false;
+    if ((double)dim.x * dim.y * dim.z > std::numeric_limits<int>::max()) return false;
     this->resize(dim);
 
     // Retrieve the rows of the matrix
-- 
2.43.0


From 33ffe0a1e9be8558072290e9c6062244cf23f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 15/41] fix: report failed saves and never destroy an existing
 model by a save that does not complete

---
 src/ModelDescription.tpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 63cfeba..34d8286 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -1,5 +1,6 @@
 #include <mutex>
 #include <thread>
+#include <cstdio>
 #include <fstream>
 #include <atomic>
 #include <exception>
@@ -62,26 +63,40 @@ void ModelDescription<InputDataType, OutputDataType>::setOutputLabels(std::vecto
 template<typename InputDataType, typename OutputDataType>
 bool ModelDescription<InputDataType, OutputDataType>::saveModel(std::string filename) {
     STIC;
-    std::ofstream f(filename);
 
+    // Write to a temporary file first, so that a model which is already stored
+    // under this name is only replaced once the new one is complete
+    const std::string temp_filename = filename + ".tmp";
+    std::ofstream f(temp_filename);
+
+    bool success = true;
     int i = 0;
     try{
         for (std::shared_ptr<my_cnn::ModelLayer>& layer : layers){
             f << "(" << i++ << ") ----------\n";
             f << layer->serialize();
         }
+
+        f << "\nOutput labels " << output_labels.size() << "\n";
+        for (OutputDataType& label : output_labels){
+            f << label << "\n";
+        }
+        f << std::endl;
     }catch(...){
-        std::cout << "Something went wrong, file was not saved correctly\n";
-        return false;
+        success = false;
     }
 
-    f << "\nOutput labels " << output_labels.size() << "\n";
-    for (OutputDataType& label : output_labels){
-        f << label << "\n";
+    // Errors of the stream are sticky, so this covers opening and writing the file as well
+    f.close();
+    success = success && f.good();
+    success = success && std::rename(temp_filename.c_str(), filename.c_str()) == 0;
+
+    if (!success){
+        std::cout << "Something went wrong, file was not saved correctly\n";
+        std::remove(temp_filename.c_str());
     }
-    f << std::endl;
 
-    return true;
+    return success;
 }
 
 template<typename InputDataType, typename OutputDataType>
-- 
2.43.0


From 88ed9fb4e67f37ba53b250303b9f1c312f3dfe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:48 +0000
Subject: [PATCH 16/41] fix: exit with an error when the requested model could
 not be saved

---
 src/main.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 6a276f1..10c7a23 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -184,7 +184,10 @@ int main(int argc, char* argv[]){
     }else{
         std::string filename = data_dir + "/" + std::string(argv[1]) + ".model_data";
         std::cout << "Saving model to \"" << filename << "\"\n";
-        model.saveModel(filename);
+        if (!model.saveModel(filename)){
+            std::cerr << "Could not save the model to \"" << filename << "\"\n";
+            return 1;
+        }
     }
 
     #ifdef TIMEIT
-- 
2.43.0


From 4b7e8860e8809106f1a519d62b580ffd5b2410f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:54 +0000
Subject: [PATCH 17/41] fix: give each validation worker its own slot of the
 model

---
 src/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 10c7a23..7a8515f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -69,6 +69,11 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
     std::atomic<int> correct_count = 0;
     std::vector<std::thread> workers(params.num_threads);
 
+    // Some layers store data of the input they are working on, so each worker needs its own slot
+    for (auto& layer : model.layers){
+        layer->setBatchSize(workers.size());
+    }
+
     // Assign work to threads
     auto start = std::chrono::steady_clock::now();
     int num_images = db.numImages();
@@ -81,7 +86,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
                 lock.unlock();
 
                 // Run forwards propagation and check result
-                my_cnn::ModelResults result = model.forwardPropagation(Data.data);
+                my_cnn::ModelResults result = model.forwardPropagation(Data.data, worker_idx);
                 correct_count += model.output_labels[result.label_idx] == std::to_string(Data.label);
             }
         });
-- 
2.43.0


From e954775d164ded32d823473d578ce57a8e0e09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:00 +0000
Subject: [PATCH 18/41] fix: never sample one past the last image after
 validation

---
 src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 7a8515f..1265d97 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -100,7 +100,7 @@ void validate(ModelType& model, const typename ModelType::Hyperparameters& param
 
     // Print some samples for manual inspection
     for (int i = 0; i < 5; i++){
-        int idx = (double)(rand())/RAND_MAX * num_images;
+        int idx = (double)(rand())/(RAND_MAX + 1.0) * num_images;
         auto Data = db.getImage(idx);
 
         my_cnn::ModelResults result = model.forwardPropagation(Data.data);
-- 
2.43.0


From 05fd30e792bff94cfeccfd816d9f61b1cae82a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:15 +0000
Subject: [PATCH 19/41] fix: report unreadable MNIST data instead of returning
 made up images and labels

---
 src/MNISTReader.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index ed70ac3..8e983e6 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <filesystem>
+#include <stdexcept>
 #include "cnn_from_scratch/MNISTReader.h"
 
 #define DATA_NUM_HEADER_LINES 4
@@ -36,6 +37,9 @@ MNISTReader::MNISTReader(std::string image_filename, std::string label_filename)
     // Read the sizes of the images
     image_height_ = read<int32_t>(image_stream_);
     image_width_  = read<int32_t>(image_stream_);
+    if (num_images_ < 0 || image_height_ <= 0 || image_width_ <= 0){
+        throw std::runtime_error("Invalid number or size of images in \"" + image_filename + "\"");
+    }
 
     std::cout << "Opened files \"" << image_filename << "\" and \"" << label_filename << "\"\n";
     std::cout << "Files contain " << num_images_ << " images and labels\n";
@@ -48,8 +52,15 @@ MNISTReader::~MNISTReader(){
 }
 
 Image MNISTReader::getImage(size_t idx){
+    if (idx >= num_images_){
+        throw std::runtime_error("Cannot extract image " + std::to_string(idx) + " out of " + std::to_string(num_images_) + " images");
+    }
     current_index_ = idx;
 
+    // Recover from earlier errors
+    image_stream_.clear();
+    label_stream_.clear();
+
     // Set the index for the image stream
     size_t img_char_start_idx = DATA_NUM_HEADER_LINES*sizeof(int32_t) + idx * image_height_ * image_width_;
     image_stream_.seekg(img_char_start_idx);
@@ -92,6 +103,11 @@ T MNISTReader::read(std::fstream& stream){
             stream.read(&buf[i], 1);
         }
     }
+
+    // Do not make up a value if the file is damaged or cannot be read
+    if (!stream){
+        throw std::runtime_error("Failed to read from the MNIST files");
+    }
     return val;
 }
 
-- 
2.43.0


From 8b61e5356875e7e9bbef09401c9eb9ed25d15a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 20/41] fix: stop reading an empty matrix of absurd size at the
 end of the file

---
 src/SimpleMatrix.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index de37663..7839ef5 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -259,7 +259,11 @@ bool SimpleMatrix<T>::deserialize(std::istream& is) {
 
     // Retrieve the rows of the matrix
     for (int z = 0; z < dim.z; z++){
+        if (is.fail()) return false;
+
         for (int x = 0; x < dim.x; x++){
+            if (is.fail()) return false;
+
             // For each entry, write to the corresponding value
             for (int y = 0; y < dim.y; y++){
                 is >> this->operator()(x, y, z);
-- 
2.43.0


From e8f9010e21073c3210c009d4921560ed97eb021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:55 +0000
Subject: [PATCH 21/41] fix: count batches and work shares exactly for more
 than 2^24 points

---
 src/ModelDescription.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 34d8286..9a3e43c 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -254,13 +254,13 @@ int ModelDescription<InputDataType, OutputDataType>::runEpoch(DataGenerator<Inpu
     std::vector<std::thread> workers(params.num_threads);
 
     // Determine how much work each thread has to do
-    const int work_count = std::ceil((float)params.batch_size / params.num_threads);
+    const int work_count = std::ceil((double)params.batch_size / params.num_threads);
 
     // Create a vector to store the results of each individual forward propagation
     std::vector<ModelResults<OutputDataType>> batch_results(params.batch_size);
     std::atomic_int success_count = 0;
 
-    const int num_batches = std::ceil((float)data_source.size() / params.batch_size);
+    const int num_batches = std::ceil((double)data_source.size() / params.batch_size);
     for (int n = 0; n < num_batches; n++){
         TIC("Run Batch");
 
-- 
2.43.0


From 8847953602a2a26104ae122e223fa33b707cea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 22/41] fix: initialise a connected layer again if the first
 attempt ran out of memory

---
 src/Layers/ConnectedLayer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 8489f9c..a1219d4 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -66,7 +66,6 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     // If this is the first time at this layer, resize and apply random values
     dim3 expected_size(biases.size(), input_data.size(), 1);
     if (!initialized_){
-        initialized_ = true;
         input_dim_ = input_data.dim();
         std::srand(std::chrono::steady_clock::now().time_since_epoch().count());
         // Set random weights in the interval [0, 1] upon construction
@@ -82,6 +81,8 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
         weights /= l2Norm(weights);
         biases /= l2Norm(biases);
 
+        // Only now, so that the next input tries again if this one runs out of memory on the way
+        initialized_ = true;
         return true;
     }
     // Otherwise check to make sure the size is correct
-- 
2.43.0


From d1f4d8d81ba6a132a8ae6e41f674fd76c325839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:30 +0000
Subject: [PATCH 23/41] fix: refuse an input smaller than the filter or the
 pool instead of reading outside it

---
 src/Layers/Kernel.cpp  | 4 ++--
 src/Layers/Pooling.cpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index c4d3228..3033455 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -96,7 +96,7 @@ SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter
 // ----------------------------------------------------------------------------
 
 bool Kernel::checkSize(const SimpleMatrix<double>& input_data) {
-    return input_data.dim(2) == dim_.z;
+    return input_data.dim(0) >= dim_.x && input_data.dim(1) >= dim_.y && input_data.dim(2) == dim_.z;
 }
 
 // ----------------------------------------------------------------------------
@@ -116,7 +116,7 @@ dim3 Kernel::outputSize(const SimpleMatrix<double>& input_data) const{
 SimpleMatrix<double> Kernel::propagateForward(SimpleMatrix<double>&& input_data, size_t) {
     // Make sure the input size is what we expect based on weights and biases dimensions
     if (!checkSize(input_data))
-        throw ModelLayerException("Mismatched channel count for convolution");
+        throw ModelLayerException("Mismatched channel count or input smaller than the filter for convolution");
 
     SimpleMatrix<double> output(outputSize(input_data));
     
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index dc69a72..96f69f5 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -1,3 +1,4 @@
+#include "cnn_from_scratch/exceptions.h"
 #include "cnn_from_scratch/Layers/Pooling.h"
 
 namespace my_cnn{
@@ -45,6 +46,10 @@ dim3 Pooling::outputSize(const dim3& input_dim) const {
 // ----------------------------------------------------------------------------
 
 SimpleMatrix<double> Pooling::propagateForward(SimpleMatrix<double>&& input, size_t batch_idx) {
+    // There is nothing to pool if the input is smaller than the pool
+    if (!checkSize(input))
+        throw ModelLayerException("Input smaller than the pool size for pooling");
+
     // Create the approriately sized output
     SimpleMatrix<double> output(outputSize(input.dim()));
 
-- 
2.43.0


From 3080725386914d320baa1a672c17640053b1d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:02 +0000
Subject: [PATCH 24/41] fix: report running out of memory while a layer is
 written instead of saving a cut-off file

---
 src/Layers/Activation.cpp     | 2 ++
 src/Layers/ConnectedLayer.cpp | 2 ++
 src/Layers/Kernel.cpp         | 2 ++
 src/Layers/Pooling.cpp        | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/src/Layers/Activation.cpp b/src/Layers/Activation.cpp
index 0232bfc..875c12e 100644
--- a/src/Layers/Activation.cpp
+++ b/src/Layers/Activation.cpp
@@ -84,6 +84,8 @@ SimpleMatrix<double> Activation::propagateBackward(
 
 std::string Activation::serialize() const {
     std::stringstream ss;
+    // Do not hide running out of memory, the text would be cut off
+    ss.exceptions(std::ios::badbit);
     ss << "Activation\n";
     ss << toString(activation_) << "\n";
     return ss.str();
diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index a1219d4..b2f8188 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -158,6 +158,8 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
 
 std::string ConnectedLayer::serialize() const {
     std::stringstream ss;
+    // Do not hide running out of memory, the text would be cut off
+    ss.exceptions(std::ios::badbit);
     ss << "Connected Layer\n";
     serialization::place(ss, weights.dim().x, "x");
     serialization::place(ss, weights.dim().y, "y");
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 3033455..1d6b630 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -233,6 +233,8 @@ SimpleMatrix<double> Kernel::propagateBackward(
 
 std::string Kernel::serialize() const {
     std::stringstream ss;
+    // Do not hide running out of memory, the text would be cut off
+    ss.exceptions(std::ios::badbit);
     ss << "Kernel\n";
     serialization::place(ss, dim_.x, "x");
     serialization::place(ss, dim_.y, "y");
diff --git a/src/Layers/Pooling.cpp b/src/Layers/Pooling.cpp
index 96f69f5..1b93c84 100644
--- a/src/Layers/Pooling.cpp
+++ b/src/Layers/Pooling.cpp
@@ -138,6 +138,8 @@ SimpleMatrix<double> Pooling::propagateBackward(
 
 std::string Pooling::serialize() const {
     std::stringstream ss;
+    // Do not hide running out of memory, the text would be cut off
+    ss.exceptions(std::ios::badbit);
     
     // Record the layer type
     ss << "Pooling\n";
-- 
2.43.0


From 3e4a18fb49e4cbd7e8bae640a5b5a5fc475b3337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 25/41] fix: a matrix whose assignment or resize ran out of
 memory kept dimensions that its values do not have

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h |  8 ++++++--
 src/SimpleMatrix.tpp                           | 12 +++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index addb3f2..ea91a3d 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -56,8 +56,12 @@ public:
 
     /* == Assignment === */
 
-    // Default
-    SimpleMatrix<T>& operator=(const SimpleMatrix<T>& M) = default;
+    // Copy assignment. The dimensions only change once there is memory for the values
+    SimpleMatrix<T>& operator=(const SimpleMatrix<T>& M){
+        values_ = M.values_;
+        dim_ = M.dim_;
+        return *this;
+    }
 
     // Move assignment
     SimpleMatrix<T>& operator=(SimpleMatrix<T>&& other) = default;
diff --git a/src/SimpleMatrix.tpp b/src/SimpleMatrix.tpp
index 7839ef5..072a4a7 100644
--- a/src/SimpleMatrix.tpp
+++ b/src/SimpleMatrix.tpp
@@ -61,9 +61,9 @@ SimpleMatrix<T>& SimpleMatrix<T>::operator=(std::vector<T>&& v){
 template<typename T>
 template<typename Other>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(const SimpleMatrix<Other>& M){
+    std::vector<T> values(M.values_.begin(), M.values_.end());
     dim_ = M.dim_;
-    values_.resize(dim_.x*dim_.y*dim_.z);
-    std::copy(M.values_.begin(), M.values_.end(), values_.begin());
+    values_ = std::move(values);
     return *this;
 }
 
@@ -88,10 +88,8 @@ void SimpleMatrix<T>::setEntries(std::vector<T>&& v){
 template<typename T>
 template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, std::remove_reference_t<MatrixType>>, bool>>
 SimpleMatrix<T>& SimpleMatrix<T>::operator=(MatrixType&& M){
-    dim_ = M.dim();
-    values_.resize(size());
-    std::copy(std::forward<MatrixType>(M).begin(), std::forward<MatrixType>(M).end(), begin());
-    return *this;
+    // Evaluate completely before this matrix changes. M may refer to it, and getting memory may fail
+    return *this = SimpleMatrix<T>(std::forward<MatrixType>(M));
 }
 
 // ================================== //
@@ -110,8 +108,8 @@ const dim3& SimpleMatrix<T>::dims() const{
 
 template<typename T>
 void SimpleMatrix<T>::resize(int x, int y, int z){
-    dim_ = dim3(x, y, z);
     values_.resize(x*y*z, T{});
+    dim_ = dim3(x, y, z);
 }
 
 template<typename T>
-- 
2.43.0


From 16a4625a77502e293ebf9372e6c0d5059aa462d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 26/41] fix: convolve read outside its operands if the filter
 was larger than the input or the stride larger than one

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 083dd6c..06fba74 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -254,9 +254,16 @@ auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
     assert(M1.isFlat() && M2.isFlat());
 
+    // Only positions in which M2 is completely inside M1 are computed
+    if (M2.dim().x > M1.dim().x || M2.dim().y > M1.dim().y || stride.x < 1 || stride.y < 1){
+        std::stringstream ss;
+        ss << "Cannot convolve a matrix of size " << M1.dim() << " with a matrix of size " << M2.dim() << " and stride " << stride;
+        throw MatrixSizeException(ss.str());
+    }
+
     const dim3 output_size(
-        M1.dim().x - M2.dim().x + 1,
-        M1.dim().y - M2.dim().y + 1,
+        (M1.dim().x - M2.dim().x)/stride.x + 1,
+        (M1.dim().y - M2.dim().y)/stride.y + 1,
         1
     );
 
-- 
2.43.0


From dcbd8d3a53db75f288d171a44c45e2ead3ffa1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 27/41] fix: views and their at() accepted negative positions

---
 include/cnn_from_scratch/Matrix/SubMatrixView.h | 7 +++++--
 src/SubMatrixView.tpp                           | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index e5d880e..2406f2d 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -34,7 +34,9 @@ public:
     MatrixBase(dim), mat_ptr_(&mat), start_(start) 
     {
         dim3 end = start + dim;
-        if (end.x > mat_ptr_->dim().x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            dim.x < 0 || dim.y < 0 || dim.z < 0 ||
+            end.x > mat_ptr_->dim().x ||
             end.y > mat_ptr_->dim().y ||
             end.z > mat_ptr_->dim().z)
         {
@@ -49,7 +51,8 @@ public:
     SubMatrixView(*other_view.mat_ptr_, other_view.start_ + start, dim)
     {
         dim3 end = start + dim;
-        if (end.x > other_view.dim_.x ||
+        if (start.x < 0 || start.y < 0 || start.z < 0 ||
+            end.x > other_view.dim_.x ||
             end.y > other_view.dim_.y ||
             end.z > other_view.dim_.z)
         {
diff --git a/src/SubMatrixView.tpp b/src/SubMatrixView.tpp
index ab0b1f2..a6322eb 100644
--- a/src/SubMatrixView.tpp
+++ b/src/SubMatrixView.tpp
@@ -22,7 +22,7 @@ const T& SubMatrixView<T>::operator()(const dim3& idx) const{
 
 template<typename T>
 const T& SubMatrixView<T>::at(const dim3& idx) const{
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
@@ -42,7 +42,7 @@ T& SubMatrixView<T>::operator()(const dim3& idx) {
 
 template<typename T>
 T& SubMatrixView<T>::at(const dim3& idx) {
-    if (idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
+    if (idx.x < 0 || idx.y < 0 || idx.z < 0 || idx.x >= dim_.x || idx.y >= dim_.y || idx.z >= dim_.z){
         std::stringstream ss;
         ss << "Failed to index SubMatrixView of size " << dim_ << " with index " << idx;
         throw std::out_of_range(ss.str());
-- 
2.43.0


From d50fc80864f2b01ef030cd716f364c21babab10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 28/41] fix: the dot product of floating point matrices was
 accumulated as an integer

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 06fba74..a3d0a15 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -188,7 +188,7 @@ auto dot(const MatrixType1& M1, const MatrixType2& M2){
         throw MatrixSizeException(ss.str());
     }
 
-    return std::inner_product(M1.begin(), M1.end(), M2.begin(), 0);
+    return std::inner_product(M1.begin(), M1.end(), M2.begin(), CommonMatrixType<MatrixType1, MatrixType2>{});
 }
 
 template<typename MatrixType1, typename MatrixType2, typename BinaryOp>
-- 
2.43.0


From 6007d905a366125ee9e6525cf6a84128152b08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 29/41] fix: printing a matrix changed the format of std::cout
 instead of that of the stream it prints to

---
 include/cnn_from_scratch/Matrix/SimpleMatrix.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/SimpleMatrix.h b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
index ea91a3d..d65edcc 100644
--- a/include/cnn_from_scratch/Matrix/SimpleMatrix.h
+++ b/include/cnn_from_scratch/Matrix/SimpleMatrix.h
@@ -139,11 +139,12 @@ template<typename MatrixType, std::enable_if_t<std::is_base_of_v<MatrixBase, Mat
 std::ostream& operator<<(std::ostream& os, const MatrixType& M){
     using T = typename MatrixType::type;
 
-    int default_precision = std::cout.precision();
+    const std::ios::fmtflags default_flags = os.flags();
+    const std::streamsize default_precision = os.precision();
     int max_width = 4;
     
     if constexpr (std::is_floating_point_v<T>){
-        std::cout << std::setprecision(2) << std::fixed;
+        os << std::setprecision(2) << std::fixed;
         max_width += 3;
     }
 
@@ -160,8 +161,8 @@ std::ostream& operator<<(std::ostream& os, const MatrixType& M){
         os << "\n";
     }
 
-    std::cout << std::setprecision(default_precision);
-    std::cout << std::defaultfloat;
+    os.flags(default_flags);
+    os.precision(default_precision);
 
     return os;
 }
-- 
2.43.0


From ee686955e48a80cd9ad24efce5c81d15c20374da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 30/41] fix: the progress bar changed the format of std::cout
 while other trainings print to it

---
 include/cnn_from_scratch/LoadingBar.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/LoadingBar.h b/include/cnn_from_scratch/LoadingBar.h
index 90bfb15..8548147 100644
--- a/include/cnn_from_scratch/LoadingBar.h
+++ b/include/cnn_from_scratch/LoadingBar.h
@@ -2,13 +2,17 @@
 
 #include <iostream>
 #include <iomanip>
+#include <sstream>
 
 void loadingBar(float val, float total, size_t width = 50){
     size_t occupied_width = val/total * width;
     size_t unoccupied_width = width - occupied_width;
+    // std::cout may be in use by other threads, so its format must not change
+    std::ostringstream bar;
     printf("\033[?25l");
-    std::cout << "\r" << std::setfill('=') << std::setw(occupied_width+1) << std::left << "[";
-    std::cout << std::setfill(' ') << std::setw(unoccupied_width) << std::right << "]";
-    std::cout << " " << std::setw(3) << (int)(100.0*val/total+1) << "%";
+    bar << "\r" << std::setfill('=') << std::setw(occupied_width+1) << std::left << "[";
+    bar << std::setfill(' ') << std::setw(unoccupied_width) << std::right << "]";
+    bar << " " << std::setw(3) << (int)(100.0*val/total+1) << "%";
+    std::cout << bar.str();
     printf("\033[?25h");
 }
\ No newline at end of file
-- 
2.43.0


From 71d06faf8af1b0f68cf4dfbadf04475740bd6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 31/41] fix: the mean of an integer matrix with a negative sum
 was a huge number

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a3d0a15..282878d 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -470,7 +470,8 @@ auto sum(const MatrixType& M){
 
 template<typename MatrixType>
 auto mean(const MatrixType& M){
-    return sum(M) / M.size();
+    // An unsigned size would turn a negative sum of integers into a huge number
+    return sum(M) / static_cast<std::ptrdiff_t>(M.size());
 }
 
 template<typename MatrixType>
-- 
2.43.0


From 2b19da019d429306fcf159f988726af655b3902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:21 +0000
Subject: [PATCH 32/41] fix: the transpose of a temporary matrix had no size,
 as its dimensions were read after it was moved

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index 282878d..a396c0f 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -234,6 +234,9 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
 
     using T = CommonMatrixType<MatrixType1, MatrixType2>;
 
+    // A temporary matrix is moved into the result, so its dimensions are needed first
+    const dim3 output_size(M1.dim().x, M2.dim().y, M1.dim().z);
+
     auto getMultipliedIndex = [](const MatrixType1& m1, const MatrixType2& m2, const dim3& idx) {
         dim3 m1_idx(idx.x, 0, idx.z);
         dim3 m2_idx(0, idx.y, idx.z);
@@ -246,7 +249,7 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
     };
 
     return GeneralMatrixOperationResult<decltype(M1), decltype(M2),decltype(getMultipliedIndex)>
-    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), dim3(M1.dim().x, M2.dim().y, M1.dim().z), getMultipliedIndex);
+    (std::forward<MatrixType1>(M1), std::forward<MatrixType2>(M2), output_size, getMultipliedIndex);
 }
 
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
@@ -422,9 +425,12 @@ auto transpose(MatrixType&& M){
     auto transposeIdx = [](const MatrixType& M, const dim3& idx){
         return M(dim3(idx.y, idx.x, idx.z));
     };
+    // A temporary matrix is moved into the result, so its dimensions are needed first
+    const int x_dim = M.dim().x;
+    const int y_dim = M.dim().y;
     auto&& ret_val = UnaryOperationResult<decltype(M), decltype(transposeIdx)>(std::forward<MatrixType>(M), transposeIdx);
-    ret_val.dim_.x = M.dim().y;
-    ret_val.dim_.y = M.dim().x;
+    ret_val.dim_.x = y_dim;
+    ret_val.dim_.y = x_dim;
     return ret_val;
 }
 
-- 
2.43.0


From a1dfc8331d82e75d09bd10226783e370627c2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:52 +0000
Subject: [PATCH 33/41] fix: iterating over a matrix or view without rows or
 columns read and wrote outside of it

---
 include/cnn_from_scratch/Matrix/MatrixIterator.h | 7 ++++++-
 include/cnn_from_scratch/Matrix/SubMatrixView.h  | 6 ++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixIterator.h b/include/cnn_from_scratch/Matrix/MatrixIterator.h
index d8b5ac3..9540575 100644
--- a/include/cnn_from_scratch/Matrix/MatrixIterator.h
+++ b/include/cnn_from_scratch/Matrix/MatrixIterator.h
@@ -27,7 +27,12 @@ public:
     MatrixIterator(MatrixType&& parent, dim3 idx) : 
     parent_(&parent), 
     dim_it_(parent.dim(), idx),
-    scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x) {}
+    scalar_idx_(idx.z*dim_it_.dim.x*dim_it_.dim.y + idx.y*dim_it_.dim.x + idx.x)
+    {
+        // Without elements the first position is the end
+        if (dim_it_.dim.x == 0 || dim_it_.dim.y == 0)
+            dim_it_.idx.z = dim_it_.dim.z;
+    }
 
     reference operator*() {
         if constexpr (is_pure_matrix)
diff --git a/include/cnn_from_scratch/Matrix/SubMatrixView.h b/include/cnn_from_scratch/Matrix/SubMatrixView.h
index 2406f2d..c396f2a 100644
--- a/include/cnn_from_scratch/Matrix/SubMatrixView.h
+++ b/include/cnn_from_scratch/Matrix/SubMatrixView.h
@@ -94,15 +94,13 @@ public:
         return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() {
-        MatrixIterator<SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
     auto begin() const {
         return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, 0));
     }
     auto end() const {
-        MatrixIterator<const SubMatrixView<T>&> it(*this, dim_ - dim3(1));
-        return ++it;
+        return MatrixIterator<const SubMatrixView<T>&>(*this, dim3(0, 0, dim_.z));
     }
 
 private:
-- 
2.43.0


From dc363bfa46fd63a5e4bf6d6083fc59ddb84896d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:06 +0000
Subject: [PATCH 34/41] fix: give the gradient of a connected layer the shape
 of its own input

---
 src/Layers/ConnectedLayer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index b2f8188..07d2c02 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -148,8 +148,12 @@ SimpleMatrix<double> ConnectedLayer::propagateBackward(
     // weights -= learning_rate * getdLdW(X, dLdZ);
     // biases  -= learning_rate * getdLdB(dLdZ);
 
-    // We need to reshape the gradient to what the previous layer would be expecting
-    SimpleMatrix<double> dLdX = last_layer ? SimpleMatrix<double>() : getdLdX(dLdZ);
+    if (last_layer) return SimpleMatrix<double>();
+
+    // We need to reshape the gradient to what the previous layer would be expecting. Inputs of the
+    // same size may differ in shape, so that is the shape of this input and not of the first one
+    SimpleMatrix<double> dLdX = getdLdX(dLdZ);
+    dLdX.reshape(X.dim());
     return dLdX;
 }
 
-- 
2.43.0


From aa603c69e1b31567aac5be2920e1376cad4de480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:26 +0000
Subject: [PATCH 35/41] fix: do not take the input shape of a loaded connected
 layer from an input that does not fit

---
 src/Layers/ConnectedLayer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 07d2c02..2e5182f 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -87,9 +87,10 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     }
     // Otherwise check to make sure the size is correct
     else{
-        // The input shape is not part of a saved layer, so take it from the first input after loading
+        if (weights.dims() != expected_size) return false;
+        // The input shape is not part of a saved layer, so take it from the first fitting input after loading
         if (input_dim_.size() == 0) input_dim_ = input_data.dim();
-        return ( weights.dims() == expected_size );
+        return true;
     }
 }
 
-- 
2.43.0


From 6d85e5070439fde36be78d3471a436e9cafab643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:01 +0000
Subject: [PATCH 36/41] fix: refuse an empty input to the softmax layer

---
 src/Layers/Softmax.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Layers/Softmax.cpp b/src/Layers/Softmax.cpp
index 33dbd71..fb81bb8 100644
--- a/src/Layers/Softmax.cpp
+++ b/src/Layers/Softmax.cpp
@@ -20,7 +20,8 @@ ModelFlowMode Softmax::getType() const {
 // ----------------------------------------------------------------------------
 
 bool Softmax::checkSize(const SimpleMatrix<double>& input) {
-    return (input.isColumn() || input.isRow()) && 
+    // There is no largest value to compare with if there are no labels
+    return input.size() > 0 && (input.isColumn() || input.isRow()) && 
             (input.size() == output_label_count_);
 }
     
-- 
2.43.0


From 8072d472de6463a60c436703f654c9af86945a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 37/41] fix: stay at the current image if there is no memory
 for it

---
 src/MNISTReader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MNISTReader.cpp b/src/MNISTReader.cpp
index 8e983e6..1a27645 100644
--- a/src/MNISTReader.cpp
+++ b/src/MNISTReader.cpp
@@ -79,15 +79,15 @@ Image MNISTReader::nextImage(){
 
     Image img;
 
-    SimpleMatrix<unsigned char> out({image_height_, image_width_, 1});
+    // Get the memory first, so that the streams stay at the current image if there is none
+    img.data = SimpleMatrix<float>({image_height_, image_width_, 1});
     for (int row = 0; row < image_height_; row++){
         for (int col = 0; col < image_width_; col++){
-            out(row, col, 0) = read<unsigned char>(image_stream_);
+            img.data(row, col, 0) = (read<unsigned char>(image_stream_) - 128)/255.0f;
         }
     }
 
     img.label = read<unsigned char>(label_stream_);
-    img.data = (out - 128)/255.0f;
     current_index_++;
     return img;
 }
-- 
2.43.0


From 467a0f5994ce76d59502883ea7f5d36609d24949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:07 +0000
Subject: [PATCH 38/41] fix: report a convolution of matrices with several
 layers instead of ending the process

---
 include/cnn_from_scratch/Matrix/MatrixMath.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/cnn_from_scratch/Matrix/MatrixMath.h b/include/cnn_from_scratch/Matrix/MatrixMath.h
index a396c0f..ac305f1 100644
--- a/include/cnn_from_scratch/Matrix/MatrixMath.h
+++ b/include/cnn_from_scratch/Matrix/MatrixMath.h
@@ -255,10 +255,8 @@ auto matrixMultiply(MatrixType1&& M1, MatrixType2&& M2){
 template<typename MatrixType1, typename MatrixType2, typename = IsMatrixBase<MatrixType1, MatrixType2>>
 auto convolve(MatrixType1&& M1, MatrixType2&& M2, dim2 stride){
     // We define convolutions only for 2D matrices
-    assert(M1.isFlat() && M2.isFlat());
-
     // Only positions in which M2 is completely inside M1 are computed
-    if (M2.dim().x > M1.dim().x || M2.dim().y > M1.dim().y || stride.x < 1 || stride.y < 1){
+    if (!M1.isFlat() || !M2.isFlat() || M2.dim().x > M1.dim().x || M2.dim().y > M1.dim().y || stride.x < 1 || stride.y < 1){
         std::stringstream ss;
         ss << "Cannot convolve a matrix of size " << M1.dim() << " with a matrix of size " << M2.dim() << " and stride " << stride;
         throw MatrixSizeException(ss.str());
-- 
2.43.0


From bf2dc692582017ee46e5d1fd5142ae1b4839ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 39/41] fix: report a pass through a model without a matching
 output layer instead of ending the process

---
 src/ModelDescription.tpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 9a3e43c..0bd454a 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -207,7 +207,9 @@ ModelResults<OutputDataType> ModelDescription<InputDataType, OutputDataType>::fo
     }
 
     // Make sure the size of the last layer matches up with the label vector size
-    assert(active_data.size() == output_labels.size());
+    if (active_data.size() == 0 || active_data.size() != output_labels.size()){
+        throw std::logic_error("The output of the model does not match its " + std::to_string(output_labels.size()) + " output labels");
+    }
 
     result.label_idx  = active_data.maxIndex();
     result.confidence = active_data[result.label_idx];
@@ -233,8 +235,10 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
 
     // Get the gradient at the output from this result's own label. The output layer is shared by
     // all of the worker threads, so the label cannot be handed over by storing it in the layer
-    assert(layers.back()->getType() == OUTPUT);
     auto output_layer = std::dynamic_pointer_cast<Softmax>(layers.back());
+    if (!output_layer){
+        throw std::logic_error("The last layer of the model is not its output layer");
+    }
     SimpleMatrix<double> dLdz = output_layer->getdLdX(result.layer_inputs.back(), result.true_label_idx);
 
     // For each of the remaining layers, calculate the corresponding gradient and adjust the weights accordingly
-- 
2.43.0


From fb0fe06020f44f578553ef6847b6962d5537b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:24 +0000
Subject: [PATCH 40/41] fix: do not store the shape of an empty input in a
 loaded connected layer while other workers read it

---
 src/Layers/ConnectedLayer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index 2e5182f..db5aa09 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -89,7 +89,7 @@ bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     else{
         if (weights.dims() != expected_size) return false;
         // The input shape is not part of a saved layer, so take it from the first fitting input after loading
-        if (input_dim_.size() == 0) input_dim_ = input_data.dim();
+        if (input_dim_.size() == 0 && input_data.size() != 0) input_dim_ = input_data.dim();
         return true;
     }
 }
-- 
2.43.0


From 88c7bfb0eabf1ce64e1ec61549b07d69efeb0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 41/41] fix: a failed backward pass leaves no part of its
 gradient for the next update

A layer kept the gradient it had stored when a later one ran out of memory, so
applyBatch averaged it in for some of the layers only, or threw because the
gradient of the biases was missing.
---
 include/cnn_from_scratch/Layers/ConnectedLayer.h |  5 +++++
 include/cnn_from_scratch/Layers/Kernel.h         |  5 +++++
 include/cnn_from_scratch/Layers/ModelLayer.h     |  1 +
 src/Layers/ConnectedLayer.cpp                    |  9 +++++++++
 src/Layers/Kernel.cpp                            |  9 +++++++++
 src/ModelDescription.tpp                         | 16 +++++++++++-----
 6 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/cnn_from_scratch/Layers/ConnectedLayer.h b/include/cnn_from_scratch/Layers/ConnectedLayer.h
index c209267..27a43f0 100644
--- a/include/cnn_from_scratch/Layers/ConnectedLayer.h
+++ b/include/cnn_from_scratch/Layers/ConnectedLayer.h
@@ -29,6 +29,11 @@ public:
      */
     void applyBatch(double learning_rate) override;
 
+    /**
+     * Forget what was stored for one position of the batch
+     */
+    void discardGradient(size_t batch_idx) override;
+
     /**
      * Checks that the input (regardless of whether it has already been flattened)
      * contains the appropriate number of elements for forward propagation. The first
diff --git a/include/cnn_from_scratch/Layers/Kernel.h b/include/cnn_from_scratch/Layers/Kernel.h
index c091817..2eb16e6 100644
--- a/include/cnn_from_scratch/Layers/Kernel.h
+++ b/include/cnn_from_scratch/Layers/Kernel.h
@@ -35,6 +35,11 @@ public:
      */
     void applyBatch(double learning_rate) override;
 
+    /**
+     * Forget what was stored for one position of the batch
+     */
+    void discardGradient(size_t batch_idx) override;
+
     /**
      * Given an input matrix and filter dimension, return a version of the input matrix that
      * is padded to allow a full convolution between the filter and the padded input 
diff --git a/include/cnn_from_scratch/Layers/ModelLayer.h b/include/cnn_from_scratch/Layers/ModelLayer.h
index 7a1681a..ed80309 100644
--- a/include/cnn_from_scratch/Layers/ModelLayer.h
+++ b/include/cnn_from_scratch/Layers/ModelLayer.h
@@ -23,6 +23,7 @@ public:
     virtual bool checkSize(const SimpleMatrix<double>& input){return true;}
     virtual void setBatchSize(size_t batch_size) {}
     virtual void applyBatch(double learning_rate) {}
+    virtual void discardGradient(size_t batch_idx) {}
     virtual SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& input, size_t batch_idx = 0) = 0;
     virtual SimpleMatrix<double> propagateBackward(
         const SimpleMatrix<double>& input, 
diff --git a/src/Layers/ConnectedLayer.cpp b/src/Layers/ConnectedLayer.cpp
index db5aa09..efbeecc 100644
--- a/src/Layers/ConnectedLayer.cpp
+++ b/src/Layers/ConnectedLayer.cpp
@@ -58,6 +58,15 @@ void ConnectedLayer::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+void ConnectedLayer::discardGradient(size_t batch_idx){
+    if (batch_idx >= weight_gradients_.size()) return;
+    weight_gradients_[batch_idx] = SimpleMatrix<double>();
+    bias_gradients_[batch_idx]   = SimpleMatrix<double>();
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 bool ConnectedLayer::checkSize(const SimpleMatrix<double>& input_data){
     // Worker threads reach this layer concurrently, only one of them may initialize it
     static std::mutex init_mtx;
diff --git a/src/Layers/Kernel.cpp b/src/Layers/Kernel.cpp
index 1d6b630..9dba6e0 100644
--- a/src/Layers/Kernel.cpp
+++ b/src/Layers/Kernel.cpp
@@ -79,6 +79,15 @@ void Kernel::applyBatch(double learning_rate){
 // ----------------------------------------------------------------------------
 // ----------------------------------------------------------------------------
 
+void Kernel::discardGradient(size_t batch_idx){
+    if (batch_idx >= weight_gradients_.size()) return;
+    weight_gradients_[batch_idx] = SimpleMatrix<double>();
+    bias_gradients_[batch_idx]   = SimpleMatrix<double>();
+}
+
+// ----------------------------------------------------------------------------
+// ----------------------------------------------------------------------------
+
 template<typename MatrixType>
 SimpleMatrix<double> Kernel::padInput(MatrixType&& input_data, const dim3 filter_dim){
     // Create the augmented input data
diff --git a/src/ModelDescription.tpp b/src/ModelDescription.tpp
index 0bd454a..4bdc70f 100644
--- a/src/ModelDescription.tpp
+++ b/src/ModelDescription.tpp
@@ -242,12 +242,18 @@ void ModelDescription<InputDataType, OutputDataType>::backwardsPropagation(Model
     SimpleMatrix<double> dLdz = output_layer->getdLdX(result.layer_inputs.back(), result.true_label_idx);
 
     // For each of the remaining layers, calculate the corresponding gradient and adjust the weights accordingly
-    for (int i = layers.size()-2; i >= 0; i--){
-        // stic(layers[i]->name.c_str());
+    try{
+        for (int i = layers.size()-2; i >= 0; i--){
+            // stic(layers[i]->name.c_str());
 
-        const SimpleMatrix<float>& layer_input  = result.layer_inputs.at(i);
-        const SimpleMatrix<float>& layer_output = result.layer_inputs.at(i+1);
-        dLdz = layers[i]->propagateBackward(layer_input, layer_output, dLdz, batch_idx, i == 0);
+            const SimpleMatrix<float>& layer_input  = result.layer_inputs.at(i);
+            const SimpleMatrix<float>& layer_output = result.layer_inputs.at(i+1);
+            dLdz = layers[i]->propagateBackward(layer_input, layer_output, dLdz, batch_idx, i == 0);
+        }
+    }catch(...){
+        // The layers which got this far may not take a part of this gradient into the next update
+        for (auto& layer : layers) layer->discardGradient(batch_idx);
+        throw;
     }
 }
 
-- 
2.43.0

