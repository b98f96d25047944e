import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)
MD="src/ModelDescription.tpp"; L="src/Layers/"
ALL=[L+f for f in ("Kernel.cpp","ConnectedLayer.cpp","Pooling.cpp","Activation.cpp","Softmax.cpp")]
add("C01","Parallel training computes sequential mini-batch gradient descent",
 "Training a model with any number of worker threads leaves exactly the parameters (up to rounding) that sequential mini-batch gradient descent computes from the same start, data order, batch size, learning rate and number of epochs. Each update uses the average of the gradients of the points of its own batch and nothing else, including in a last batch that is not full and in later calls of train. This holds for every combination of convolution, pooling, activation and fully connected layers, including non-square shapes, as long as the values stay finite and of ordinary size.",
 ["schedules","inputs","configurations","histories"],"for every thread schedule, network, data set, batch size, thread count and number of epochs",
 "The tests run single layers on one thread; no test trains a model with several workers, so no schedule, partial batch or repeated call is ever exercised.",
 [MD,"src/SimpleMatrix.tpp","src/SubMatrixView.tpp","include/cnn_from_scratch/Matrix/MatrixMath.h"]+ALL,
 [("per-slot gradient storage averaged once per batch",L+"Kernel.cpp and "+L+"ConnectedLayer.cpp applyBatch"),("join of all workers before the update",MD+" runEpoch"),("slot = position within the batch, one worker per slot",MD+" runEpoch")],
 ["layers[i]->weights and biases after train returns"],
 [("weight_gradients_, bias_gradients_","gradients stored per batch slot until the update","include/cnn_from_scratch/Layers/Kernel.h, ConnectedLayer.h"),("affected_indices_","pooling choice per batch slot","include/cnn_from_scratch/Layers/Pooling.h")])
add("C02","Every epoch consumes every data point exactly once",
 "During training the data source is only called by one thread at a time, a point is only requested after the source said that one is available, and it is reset exactly once per epoch, after all work of the epoch is done. Every epoch takes every point the source offers exactly once, whatever the relation of data size, batch size and thread count.",
 ["schedules","configurations"],"for every interleaving of workers and speed of the data source, and every data size, batch size and thread count",
 "No test drives training through a data source at all; overlapping calls or a lost or duplicated point need a specific interleaving.",
 [MD,"include/cnn_from_scratch/DataGenerator.h"],
 [("availability check and fetch under one mutex",MD+" runEpoch"),("reset after the epoch",MD+" train"),("number of batches rounded up",MD+" runEpoch")],
 ["calls received by the DataGenerator"])
add("C03","Reported training accuracy is exact under concurrency",
 "The number of correct predictions that an epoch returns, and the accuracy printed for it, count exactly the points of the epoch whose prediction, made with the parameters in force when their batch was processed, equals their label. No schedule, thread count or partial batch adds, loses or double-counts a prediction.",
 ["schedules","inputs","configurations"],"for every thread schedule, data set, batch size and thread count",
 "No test calls train or runEpoch; a lost increment needs two workers to finish a point at the same moment.",
 [MD],[("atomic success counter",MD+" runEpoch"),("label index found per result",MD+" assignLoss")],["return value of runEpoch","text printed by train"])
add("C04","Training is free of data races and memory errors",
 "While a model is trained with any number of worker threads, no two threads access the same memory without synchronisation when one of them writes, and no access leaves its allocation or uses freed memory. This includes the first use of a model whose layers still have to be initialised, and trainings that fail.",
 ["schedules","inputs","configurations"],"for every thread schedule, network, batch size and thread count",
 "The tests are single threaded; races are invisible to them under any input.",
 [MD]+ALL,[("one slot per batch position",MD+" runEpoch"),("mutex around the lazy initialisation",L+"ConnectedLayer.cpp checkSize"),("no per-sample state in the shared output layer",MD+" backwardsPropagation")],
 ["every instrumented memory access of the training code"])
add("C05","Concurrent passes on different slots do not influence each other",
 "Forward and backward passes that run at the same time on one model with different batch slots each give the result (layer values, prediction, confidence, true class, loss) they give when run alone. The update applied afterwards is the average of the gradients of exactly the passes that were propagated backwards.",
 ["schedules","inputs","histories"],"for every interleaving of passes from several caller threads, order of forward and backward passes and network",
 "Tests never run two passes at once, and a slot mix-up yields plausible values that only a comparison per slot exposes.",
 [MD]+ALL,[("slot argument of propagateForward and propagateBackward","include/cnn_from_scratch/Layers/ModelLayer.h"),("pooling choice stored per slot",L+"Pooling.cpp")],
 ["ModelResults of every pass","layer parameters after applyBatch"])
add("C06","Concurrent first use initialises a model exactly once",
 "If several threads make the first passes on a model whose fully connected layers have not been sized yet, those layers are initialised exactly once, completely, before any pass uses them: weights have the right shape and unit norm, and every pass computes with the same final values. No pass fails or sees a half-initialised layer.",
 ["schedules","inputs"],"for every interleaving of first passes, thread count and network",
 "The window is a few instructions wide on the very first call; tests initialise the layer from one thread.",
 [L+"ConnectedLayer.cpp",MD],[("mutex and initialized_ flag",L+"ConnectedLayer.cpp checkSize")],["ModelResults of every pass","weights and biases of fully connected layers"],
 [("initialized_","layer has been sized","include/cnn_from_scratch/Layers/ConnectedLayer.h")])
add("C07","Training always terminates and leaves no threads behind",
 "train returns after a bounded amount of work for every combination of data size (including none), batch size, thread count, number of epochs and scheduling, also when the data source is slow, ends early or holds more points than announced. When it returns, all worker threads have ended.",
 ["schedules","configurations","inputs"],"for every schedule, stall pattern of the data source, and sizes (threads more than batch, batch more than data, empty data)",
 "No test starts worker threads; a lost wake-up, self-deadlock or endless loop depends on the interleaving or on a corner configuration.",
 [MD],[("workers stop when the source is empty",MD+" runEpoch"),("all workers joined per batch",MD+" runEpoch"),("updates tolerate batches without points",L+"Kernel.cpp, "+L+"ConnectedLayer.cpp applyBatch")],
 ["return of train within a step budget","threads alive afterwards"])
add("C08","A failure during training reaches the caller and leaves a usable model",
 "If the data source throws (asked for a point, for availability or for a reset), a data point has an unknown label or an unusable shape (also too small or empty), a worker runs out of memory or cannot be started during training, train ends with an exception the caller can catch (the original one if only one failure happened); the process survives and no thread keeps running. The parameters are then those after a whole number of completed batches, never a partial update. Running out of memory elsewhere in train is reported the same way. Training the same model again works as if the failed call had ended after those batches.",
 ["fault_sequences","schedules","histories"],"for every failure kind, position of the failure, set of workers that fail and schedule",
 "No test injects a failure into a worker; most positions and multi-failure interleavings cannot be produced without controlling scheduler and faults.",
 [MD]+ALL[:2],[("worker failures are kept and rethrown after the join",MD+" runEpoch"),("unknown labels are rejected",MD+" assignLoss"),("update only after a complete batch",MD+" runEpoch")],
 ["exception leaving train","layer parameters afterwards","a following train"])
add("C09","A saved model loads back exactly",
 "Loading a file that was saved into any model object replaces its content by exactly the saved one: the same sequence and configuration of layers, bit-identical finite parameters, and the same output labels (any text without line breaks). The loaded model then predicts, and continues training, exactly as the original would, after any number of save and load cycles and also if the model had never been used.",
 ["inputs","histories","fault_sequences"],"for every model, finite parameter value, label text, history before saving, number of cycles, and legal partial or interrupted disk transfer",
 "No test saves or loads a model; values, label texts, layer orders and histories are unbounded.",
 [MD,"include/cnn_from_scratch/Serialization.h","src/SimpleMatrix.tpp"]+ALL,[("serialize/deserialize per layer","src/Layers/*.cpp"),("full precision text","src/SimpleMatrix.tpp serialize"),("layer dispatch",MD+" loadModel")],
 ["loaded model: layers, parameters, labels, outputs, training result"])
add("C10","A save that reports success has stored the whole model",
 "If saveModel returns true, the complete model is in the file; if the disk is full, or opening, writing, closing or replacing the file fails at any point, it returns false (without throwing). Running out of memory while saving is reported too, as false or as an exception: true always means a complete file. On a working disk it returns true, also after earlier failures, and saving never changes the model.",
 ["fault_sequences","inputs","histories"],"for every position and kind of disk error, sequence of failed and successful saves, and model",
 "No test saves a model, and none can make a write fail at a chosen point.",
 [MD],[("stream state checked after close, then rename",MD+" saveModel")],["return value of saveModel and the file on the simulated disk"])
add("C11","An interrupted or failed save never destroys the stored model",
 "If the process is killed at any point while saving over an existing model file, or the save fails, the file afterwards loads completely as either the previous or the new model, never as something else. A leftover of an interrupted save never prevents or corrupts a later save.",
 ["crash_points","fault_sequences","histories"],"for every crash point, torn write and disk error during any sequence of saves",
 "A test cannot kill the process between two disk operations of one save.",
 [MD],[("write to a temporary file, then rename",MD+" saveModel")],["the model file after restart, through loadModel"])
add("C12","Loading never accepts a missing, cut-off or unreadable model file",
 "loadModel returns false for a missing, empty, truncated or unreadable file (a cut that loses no information may load if the result is exactly the saved model). Whatever bytes the file contains, it returns without crashing, hanging, invalid memory accesses or an exception (other than out of memory). Whenever it returns false, the model object is exactly as before.",
 ["fault_sequences","inputs"],"for every truncation point, kind of damage, read error position and allocation failure, and any content of the target model",
 "No test loads a file; damage and error positions are unbounded.",
 [MD,"include/cnn_from_scratch/Serialization.h","src/SimpleMatrix.tpp"]+ALL[:4],[("load into a separate model, swap at the end",MD+" loadModel"),("sizes checked","deserialize of matrices and layers")],
 ["return value of loadModel, target model"])
add("C13","The MNIST reader returns the stored image and label or an error",
 "For every sequence of sequential and random reads, the reader returns exactly the stored pixels (scaled) and the label of the requested image, and its position follows that image; out-of-range requests, truncated files and read errors are reported as errors, never as made-up, stale or mismatched data, and so is running out of memory at any point. Readers used at the same time by different threads, also for the same files, do not influence each other. After a failure, requesting an image by index works again as soon as the files can be read, and files with a missing, damaged or mismatching header are refused.",
 ["histories","fault_sequences","inputs","schedules"],"for every sequence of reads, file content, truncation, position of read errors, short reads and failing allocations, and interleaving of readers",
 "No test uses the reader; failure positions within a read and recovery histories cannot be produced with real files.",
 ["src/MNISTReader.cpp","include/cnn_from_scratch/MNISTReader.h"],[("seek of both streams",  "src/MNISTReader.cpp getImage"),("stream checked after each read","src/MNISTReader.cpp read")],
 ["images returned, exceptions, imageIndex, numImages"],[("current_index_","next image","include/cnn_from_scratch/MNISTReader.h")])
add("C14","Validation is exact and independent of scheduling",
 "The validation accuracy the program prints is the exact share of test images that the trained model (the one it saves) classifies correctly, every test image counted once, for every number of processors and schedule of the validation workers. The examples it prints are test images with their actual label and the class, index and confidence that model gives them. The whole program runs without data races and memory errors and ends successfully if its files are readable and the disk works.",
 ["schedules","inputs","configurations"],"for every schedule, number of processors, random-number outcome and data set",
 "The program itself is not tested; races in validation depend on the interleaving.",
 ["src/main.cpp",MD,"src/MNISTReader.cpp"],[("reader behind a mutex, own slot per worker, atomic counter","src/main.cpp validate")],["exit status, printed accuracy and saved file of the program"])
add("C15","The program reports success only if the requested model is stored",
 "If the program is given a file name and ends with status 0, the model file is complete and is the model it trained and validated; any read, write, memory or thread failure that prevents this gives another status, and so do training or test files that are missing or cut off. If it fails or is killed at any point, a model stored earlier under that name is still complete (the old or the new one), and without a file name no model file changes.",
 ["fault_sequences","crash_points","schedules"],"for every position and kind of disk, memory and thread failure, crash point and schedule of a whole program run",
 "The program is not tested, and failures at a chosen point of a whole run cannot be produced by a test.",
 ["src/main.cpp",MD,"src/MNISTReader.cpp"],[("exit status follows saveModel","src/main.cpp main"),("errors end the program","src/main.cpp, "+MD)],["exit status and the files on the simulated disk"])
add("C16","Models trained at the same time do not influence each other",
 "Training several independent models at the same time from different threads of one process gives each of them the parameters, and the counts of correct predictions of its epochs, that it gets when trained alone, without data races on anything they share.",
 ["schedules","configurations"],"for every interleaving of the trainings and every pair or triple of models and configurations",
 "No test trains two models; hidden shared state only shows when two trainings interleave.",
 [MD,"include/cnn_from_scratch/LoadingBar.h"]+ALL,[("no mutable state shared between models","src/Layers/*.cpp"),("lock around shared initialisation",L+"ConnectedLayer.cpp")],
 ["parameters of every model after its train returned"])
add("C21","The program trains on its whole training set",
 "The model the program saves is the one that two epochs of sequential mini-batch gradient descent (batches of 32, learning rate 0.03) produce from its random start, on the training images in file order, each used exactly once per epoch with its own label (the first image of the file, which the data source reads to position itself, is not part of an epoch). The accuracy it prints for every epoch is the exact share of those images that were classified correctly. This holds for every number of training images and processors.",
 ["schedules","inputs","configurations"],"for every training set, number of images relative to the batch size, number of processors and schedule of the workers",
 "The program and its data source are not tested at all; a skipped, repeated or mislabelled image still gives a plausible model.",
 ["src/main.cpp",MD,"src/MNISTReader.cpp"],[("data source over the reader","src/main.cpp MNistGenerator"),("reset positions the reader after the first image","src/main.cpp MNistGenerator::reset"),("hyperparameters","src/main.cpp main")],["saved model file and printed epoch accuracies of the program"])
add("C22","Models can be saved, loaded and used at the same time",
 "Saving, loading and predicting with different models from several threads of one process, on different files, gives each thread the result it gets alone, without data races on anything the models share. The same holds for several threads that only save and predict (each with its own slot) with one model that has been used before.",
 ["schedules","inputs","histories"],"for every interleaving of savers, loaders and predicting threads and every set of models and files",
 "No test saves or loads a model, let alone two at a time; hidden shared buffers or counters only show when two calls interleave.",
 [MD,"include/cnn_from_scratch/Serialization.h","src/SimpleMatrix.tpp"]+ALL,[("no mutable state shared between models or calls","include/cnn_from_scratch/Serialization.h, src/Layers/*.cpp"),("saving does not change the model",MD+" saveModel")],["return values, stored files, loaded models and predictions of every thread"])
MB=["include/cnn_from_scratch/Matrix/MatrixMath.h","include/cnn_from_scratch/Matrix/SimpleMatrix.h","include/cnn_from_scratch/Matrix/SubMatrixView.h","include/cnn_from_scratch/Matrix/MatrixIterator.h","src/SimpleMatrix.tpp","src/SubMatrixView.tpp"]
add("C23","Matrices can be computed with by several threads at once",
 "Threads that work with matrices at the same time, each of them changing only matrices or non-overlapping views of its own while it reads others that nobody changes, each get exactly the values they get alone, without data races: in element-wise expressions, scalar operations, products, convolutions, transposes, turns, views, copies, assignments, reductions, comparisons, printing and serialisation. Reading never changes a matrix, writing through a view changes exactly the elements of that view, every way to reach an element (positions, indices, iterators, of matrices, views and expressions) reaches the same one, and printing a matrix shows its elements row by row and affects no other stream.",
 ["schedules","inputs","histories"],"for every interleaving of the threads, history of operations, shape, element type and position of the views",
 "The tests use matrices from one thread and with a few shapes; a hidden shared buffer or cache, or a write outside a view, only shows when operations of several threads interleave.",
 MB,[("expressions hold no state that evaluating them changes","include/cnn_from_scratch/Matrix/MatrixMath.h"),("views index into the viewed matrix","src/SubMatrixView.tpp")],["values of every result and matrix, also after all threads ended"])
add("C24","A failed matrix operation changes nothing",
 "If an operation on matrices fails, because memory runs out at any point or because its operands do not fit (shapes, numbers of values, views, slices and positions outside a matrix, a filter larger than the input), the caller gets an exception, and every matrix involved, also the one that was to be assigned, resized or written through a view, is exactly as before. The same operation works as usual once there is memory. No operation accesses memory outside its matrices, be they variables, temporaries or expressions, with or without elements.",
 ["fault_sequences","inputs","histories"],"for every operation, shape, element type, position of the failing allocation and history of failed and successful operations",
 "No test makes an allocation fail, and the tests only try a few operands that do not fit.",
 MB,[("values are complete before a matrix changes","src/SimpleMatrix.tpp operator=, resize"),("sizes checked before the first element changes","include/cnn_from_scratch/Matrix/MatrixMath.h checkSize")],["exception and every matrix after each operation"])
add("C25","A pass through a model gives its result or an exception, and leaves nothing behind",
 "A forward pass of an image through a model that was built, trained or loaded returns exactly what the layers define whenever the image fits them (whatever its orientation, also if earlier images had another shape of the same size), and its backward pass adds exactly the gradient and loss of that image for the given label. If the image does not fit, the label is not one of the model's, or memory runs out at any point, the caller gets an exception. Passes never change the parameters (except sizing an unused model), only applying a batch does; failed passes influence no other pass (also at the same time in other slots), no later update, save or training (a slot whose backward pass failed holds what it held before or nothing, in all layers alike). No pass accesses memory outside its matrices or ends the process, not even through a model with parts of size zero, one without a matching output layer at its end, or one that was loaded from a damaged file. Slots are the ones announced by setBatchSize.",
 ["inputs","histories","fault_sequences","schedules"],"for every model, image shape, label, position of the failing allocation, damage that loading accepts and history of passes",
 "The tests make single passes with images that fit; wrong shapes, failed passes and what they leave behind are not tested.",
 [MD]+ALL,[("size checks of the layers","src/Layers/*.cpp checkSize, propagateForward"),("gradient has the shape of the input",L+"ConnectedLayer.cpp propagateBackward"),("unknown labels refused",MD+" assignLoss")],
 ["results and exceptions of every pass, parameters after every pass and update, later save and training"])
# not claimed
def na(id,title,statement,files,why):
    add(id,title,statement,["inputs"],"for all inputs",why,files,[("pure functions of their arguments",files[0])],["return values"])
na("C17","Matrix expressions compute element-wise algebra","Every combination of element-wise matrix operators and functions, on matrices, views and intermediate results, gives the element-wise value of the expression, independent of how it is nested or assigned.",["include/cnn_from_scratch/Matrix/MatrixMath.h","src/SimpleMatrix.tpp"],"Tests sample a few expressions; the space of expressions and shapes is unbounded.")
na("C18","Matrix views never reach outside their matrix","Creating or assigning through any sub-matrix view, slice, row, column or index outside a matrix is reported as an error, and writing through a valid view changes exactly the viewed elements.",["src/SubMatrixView.tpp","include/cnn_from_scratch/Matrix/SubMatrixView.h"],"Tests sample a few positions; all offsets and sizes are meant.")
na("C19","Shape mismatches are reported","Matrix products, convolutions, reshapes and element-wise operations on operands whose shapes do not fit are reported as errors and never read or write out of bounds.",["include/cnn_from_scratch/Matrix/MatrixMath.h","src/SimpleMatrix.tpp"],"Tests sample a few shape pairs.")
na("C20","Class probabilities are normalised","The output of the soft-max layer is non-negative and sums to one for every finite input, and its gradient is the predicted minus the true distribution.",["src/Layers/Softmax.cpp"],"Tests sample a few vectors.")
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
import subprocess
NA={"C17":"a pure function of its operands: no schedule, clock, I/O or fault for a simulator to decide (what several threads or failing allocations can do to it is C23 and C24)",
"C18":"a pure function of matrix and index arguments: nothing nondeterministic to simulate",
"C19":"a pure function of operand shapes: nothing nondeterministic to simulate",
"C20":"a pure function of the input vector: nothing nondeterministic to simulate"}
notes={
"C01":"Seeded search over thread schedules (preemption at memory accesses, atomics, locks), networks, data and source behaviour; result compared with an independent sequential implementation. Samples, does not enumerate; runs whose outcome depends on rounding (ties, blow-up) are not judged.",
"C02":"Seeded search over schedules and source delays; the simulated data source checks the protocol at every call and the conservation of points per epoch.",
"C03":"Seeded search over schedules; counts compared with the independent sequential implementation; near-ties are not judged.",
"C04":"Happens-before race detection and heap checking on every instrumented access in every explored schedule; inside the prebuilt C++ library only strings and stream operations are seen.",
"C05":"Seeded search over interleavings of caller threads; every pass compared with the reference; races reported.",
"C06":"Seeded search over interleavings of first passes; every pass recomputed from the final parameters; races reported.",
"C07":"Bounded liveness: train must return within a generous step budget under every explored schedule; deadlocks are detected exactly.",
"C08":"Seeded search over failure kinds and positions (data source, labels, shapes, allocations in workers, thread creation) and schedules; parameters compared with the reference after every whole number of batches.",
"C09":"Seeded search over models, values, labels and histories on the simulated disk with legal short and interrupted transfers; parameters compared bit by bit, behaviour with the reference.",
"C10":"Seeded search over disk-fault sequences during saves; the file is judged by loading it on the healed disk.",
"C11":"Seeded search over process-kill points and disk faults in sequences of saves. Model of a crash: the process dies, completed disk operations survive (no power-failure reordering).",
"C12":"Seeded search over truncations, damage, read errors and allocation failures; heap checking on.",
"C13":"Seeded search over read histories, file damage and read faults against the known file content; failed assertions count as reported errors.",
"C14":"Seeded search over schedules of the whole program; printed accuracy compared with the reference evaluated on the saved model; races and memory errors reported.",
"C15":"Seeded search over faults and kill points of the whole program; the file on the simulated disk is judged after the end.",
"C16":"Seeded search over interleavings of several trainings; each compared with the reference trained alone; races reported.",
"C21":"Seeded search over training sets, processor counts and schedules of the whole program; the saved model is compared with the sequential reference started from the program's own initial parameters (obtained from a run on a single image under the same random seed). Not judged if that start is not reproducible.",
"C22":"Seeded search over interleavings of savers, loaders and predicting threads; each result compared with the one obtained alone; races reported.",
"C23":"Seeded search over interleavings of 2 to 4 threads with random histories of operations on shared matrices, own matrices and disjoint views; every result compared with an independent element-by-element reference (values chosen so that it is exact); races and memory errors reported.",
"C25":"Seeded search over histories of passes (fitting and other shapes, labels, allocation failures, damaged or degenerate models, several threads); results, parameters and updates compared with the reference; heap checking and race detection on.",
"C24":"Seeded search over histories of operations with allocation failures at any point and ill-formed operands; all matrices compared with the reference after every operation; heap checking on."}
M={"version":1,"setup_cmd":"./check --build",
"checks":[{"property":p["id"],"quick_cmd":"./check "+p["id"],"thorough_cmd":"./check "+p["id"]+" --tier thorough","evidence_file":"evidence/"+p["id"]+".json",
 "technique":"deterministic simulation with fault injection: seeded search over schedules and faults, replayable","level":"exploration","level_note":notes[p["id"]]} for p in P if p["id"] in notes],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks in /repo: the simulator interposes below the compiled code (ThreadSanitizer instrumentation callbacks, pthread, libc I/O, allocator). All commits in /repo are fix: commits."}
json.dump(M,open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../MANIFEST.json','w'),indent=1)
