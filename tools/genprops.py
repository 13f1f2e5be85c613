#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Matrix element, row and column access is exact and bounds-checked",
  "Reading an element, a row or a column of a matrix returns exactly what was last stored there, and storing an element, a row or a column changes that element, row or column and nothing else. A row or column index outside the matrix (negative or too large), or a slice whose length does not fit, is refused with an error and leaves the matrix unchanged. No such call crashes.",
  ["inputs"], "every matrix shape, every integer index (64-bit, including negative ones), every stored value, every slice length",
  "TestMatrix and TestMatrixRowsCols use one 3x3 matrix and in-range indices only; no test passes a bad index or a wrong length.",
  ["matrix.go"], [("index checks in the get and set methods", "matrix.go: Get, Set, GetRow, GetColumn, SetRow, SetColumn")],
  ["return values of Get/GetRow/GetColumn", "error results", "matrix contents after Set/SetRow/SetColumn"])

p("C02", "Constructed matrices are well-formed",
  "A matrix created from two positive dimensions has exactly those dimensions, is all zero, and its rows share no storage; a matrix created from nested slices has exactly the shape and the elements of those slices. Non-positive dimensions, an empty slice, empty rows, or rows of different lengths are refused with an error. Neither constructor crashes, whatever it is given (dimensions too large for memory aside).",
  ["inputs"], "every pair of requested dimensions and every nested slice, rectangular or ragged, with any element values",
  "Tests construct three or four fixed well-formed matrices and never a malformed one.",
  ["matrix.go"], [("dimension checks in the constructors", "matrix.go: NewMatrix, NewMatrixFromSlice")],
  ["NewMatrix", "NewMatrixFromSlice"])

p("C03", "Element-wise and scalar matrix arithmetic is exact and non-destructive",
  "Adding or subtracting two matrices, negating one, or adding, multiplying by or raising to a scalar returns a new matrix of the same shape in which every element is exactly that operation applied to the corresponding element(s). The operands keep their values and share no storage with the result. Adding or subtracting matrices of different shapes is refused with an error.",
  ["inputs"], "every pair of shapes, every element value (including NaN, infinities and signed zeros) and every scalar",
  "TestMatrixOperations checks one 2x3 sum and TestMatrixScalarOperations one element with a one-sided tolerance; aliasing and mismatched shapes are never tested.",
  ["matrix.go"], [("element-wise loops into a fresh matrix", "matrix.go: Add, Sub, Neg, AddScalar, MulScalar, PowScalar")],
  ["results, errors and operands of the arithmetic methods"])

p("C04", "The matrix product is the row-by-column product of its operands",
  "The product of an r-by-n and an n-by-c matrix is the r-by-c matrix whose element (i,j) is the sum over k of left(i,k) times right(k,j). The operands keep their values and share no storage with the result. A product of matrices whose inner dimensions differ is refused with an error.",
  ["inputs"], "every triple of dimensions, matching or not, and every element value",
  "TestMatrixDotProduct multiplies one 2x3 matrix by the identity; nothing else about the product is tested.",
  ["matrix.go"], [("triple loop of the product", "matrix.go: Dot")], ["Dot"])

p("C05", "Transposition and axis sums follow their definitions",
  "Transposing an r-by-c matrix gives the c-by-r matrix with element (j,i) equal to element (i,j), and transposing twice gives back the original values. Summing over axis 0 gives the 1-by-c matrix of column sums and over axis 1 the 1-by-r matrix of row sums. Neither changes its operand, and the results share no storage with it.",
  ["inputs"], "every shape and every element value",
  "One 2x3 example each (TestMatrixTranspose checks a single element).",
  ["matrix.go"], [("transpose via rows to columns", "matrix.go: T"), ("sum over an axis", "matrix.go: Sum")], ["T", "Sum"])

p("C06", "Matrix equality is exact",
  "Two matrices compare equal exactly when they have the same shape and every pair of corresponding elements is equal as floating-point numbers, with no tolerance. Comparing never crashes and never changes either matrix.",
  ["inputs"], "every pair of shapes and all element values, including pairs that differ in one element by the smallest amount",
  "Equality is only ever called on equal matrices, so a comparison that always said yes would pass.",
  ["matrix.go"], [("size check and element loop", "matrix.go: Equals")], ["Equals"])

p("C07", "The forward pass of every layer kind computes activation(XW + b)",
  "For every layer kind, a forward pass on a batch X returns the matrix with one row per input row that holds activation(XW + b): ReLU for hidden and (when not dropping) dropout layers, identity for linear, the logistic function for sigmoid, x or slope*x for leaky, softmax over each row for softmax. The batch, the weights and the biases are left unchanged. A batch of the wrong width is refused with an error.",
  ["inputs", "configurations"], "every layer kind, layer size, batch size, weights, biases, slope and input values",
  "The layer tests run one forward pass on fixed inputs with random weights and only log the result.",
  ["network.go", "activation.go", "matrix.go"],
  [("affine map plus bias", "network.go: Forward of each layer"), ("activations", "activation.go")], ["Layer.Forward", "DropoutLayer.ForwardNoDropout"])

p("C08", "The backward pass of every layer kind returns the true gradients",
  "After a forward pass on X, the backward pass of a layer given the gradient dY of its output returns gradients of the same shapes as the weights, biases and X, equal to the derivatives of sum(dY * output) with respect to each of them (away from points where the activation is not differentiable). X, the weights and the biases are left unchanged. Gradients or inputs of the wrong width, or with different numbers of rows, are refused with an error.",
  ["inputs", "configurations"], "every layer kind (hidden, linear, sigmoid, leaky including slope 0, softmax), layer size, batch size, parameters, inputs and output gradients",
  "The layer tests only log the gradients of one example; no value or shape is compared.",
  ["network.go", "activation.go", "matrix.go"],
  [("chain rule through the activation and the affine map", "network.go: Backward of each layer"), ("activation derivatives", "activation.go: RELUPrime, SigmoidPrime, LeakyRELUPrime")],
  ["Layer.Backward"], [("saved activation inputs/outputs", "what the last forward pass saw", "network.go: reluInputs, outputs")])

p("C09", "Softmax outputs are a probability distribution for every finite input",
  "For every row of finite numbers, softmax yields finite numbers in [0,1] that sum to 1 up to rounding, a larger input never gets a smaller output, and adding the same constant to the whole row does not change the distribution. It never overflows to NaN or infinity, however large or small the inputs are. The logistic function likewise stays in [0,1] for every finite input.",
  ["inputs"], "every row length and all finite float64 values, up to the largest representable magnitudes",
  "TestSoftmaxLayer logs one row of small numbers; large magnitudes are never tried.",
  ["activation.go"], [("softmax and sigmoid", "activation.go: Softmax, Sigmoid")], ["Softmax", "Sigmoid", "SoftmaxLayer.Forward", "SigmoidLayer.Forward"])

p("C10", "The fused softmax/cross-entropy gradient equals the unfused one",
  "For one-hot labels, the combined softmax plus cross-entropy backward pass returns the same weight, bias and input gradients as taking the cross-entropy gradient and passing it through the softmax layer's own backward pass, namely those of the mean cross-entropy over the batch. Labels and outputs are left unchanged. Labels, outputs or inputs of mismatched shape are refused with an error.",
  ["inputs"], "every batch, parameter values and assignment of one-hot labels",
  "TestSoftmaxCrossEntropyLayer logs one example and compares nothing.",
  ["network.go", "loss.go", "model.go"], [("fused backward pass", "network.go: SoftmaxLayer.BackwardCrossEntropy")], ["SoftmaxLayer.BackwardCrossEntropy", "SoftmaxLayer.Backward", "CrossEntropyLoss.Backward"])

p("C11", "Every loss is the documented average over the whole batch",
  "The squared and absolute losses are the mean over all samples and outputs of the squared and absolute difference; cross-entropy is the mean over the samples of -log of the probability predicted for the label; binary cross-entropy is the mean over all samples and outputs of -(y log p + (1-y) log(1-p)). Every sample of the batch counts with the same weight. Predictions or labels of the wrong width, or with different numbers of rows, are refused with an error.",
  ["inputs"], "every batch size, output width, predictions and labels (probabilities strictly inside (0,1) for the entropies)",
  "The loss tests log one value each and compare nothing; squared and absolute losses are tried with a single-row batch only.",
  ["loss.go"], [("loss forward passes", "loss.go: Forward of each loss")], ["Loss.Forward", "Model.CalculateLoss"])

p("C12", "Every loss gradient is the derivative of that loss",
  "The backward pass of every loss returns, for each prediction, the derivative of the value its forward pass returns with respect to that prediction (away from kinks and outside the clipped region). It has the shape of the predictions and changes neither predictions nor labels. Mismatched shapes are refused with an error.",
  ["inputs"], "every loss kind, batch size, output width, predictions and labels",
  "The loss tests log gradients of one example and compare nothing.",
  ["loss.go"], [("loss backward passes", "loss.go: Backward of each loss")], ["Loss.Backward"])

p("C13", "Entropy losses stay finite and leave the predictions alone",
  "For every prediction in the closed interval [0,1], including exactly 0 and exactly 1, and labels that are 0 or 1 (one-hot for the categorical loss), the cross-entropy and binary cross-entropy losses and their gradients are finite numbers. Computing any loss or gradient leaves the caller's predictions and labels unchanged.",
  ["inputs"], "all float64 predictions in [0,1] and all 0/1 labels",
  "Tests use predictions well inside (0,1).",
  ["loss.go", "matrix.go"], [("clipping of predictions", "matrix.go: Clip")], ["CrossEntropyLoss.Forward", "BinaryCrossEntropyLoss.Forward/Backward"])

p("C14", "SGD performs the documented update at every step",
  "At step t (counting from 0) the SGD optimizer uses the rate r/(1+decay*t); without momentum it subtracts rate*gradient from every weight and bias, and with momentum m it keeps a velocity v (initially 0), sets v to m*v - rate*gradient and adds v. Every weight and every bias is updated exactly once per step and the gradients are not modified.",
  ["inputs", "histories"], "every learning rate, decay, momentum, parameter shape and values, and every sequence of gradients, at any step count",
  "TestSGDOptimizer trains once without momentum or decay and checks no value.",
  ["optimizers.go"], [("SGD update", "optimizers.go: SGDOptimizer.Update")], ["SGDOptimizer.Update"],
  [("velocity and step count", "state carried between updates", "optimizers.go: weightMomentums, biasMomentums, iterations")])

p("C15", "Adam performs the standard bias-corrected update at every step",
  "At step t (counting from 1) Adam keeps m = b1*m + (1-b1)*g and s = b2*s + (1-b2)*g^2, corrects them to m/(1-b1^t) and s/(1-b2^t), and adds -rate*m_hat/(sqrt(s_hat)+epsilon) to every weight and bias, with rate r/(1+decay*(t-1)). Every weight and every bias is updated exactly once per step and the gradients are not modified.",
  ["inputs", "histories"], "every setting of the hyper-parameters, parameter shape and values, and every sequence of gradients, at any step count",
  "TestAdamOptimizer trains once and checks no value.",
  ["optimizers.go"], [("Adam update", "optimizers.go: AdamOptimizer.Update")], ["AdamOptimizer.Update"],
  [("moments and step count", "state carried between updates", "optimizers.go: weightMomentums, weightCache, biasMomentums, biasCache, iterations")])

p("C16", "Optimizers validate their settings and refuse gradients that do not fit",
  "An optimizer is created exactly when the learning rate is positive and the decay (and, for SGD, the momentum) is not negative; otherwise an error is returned. An update whose weight or bias gradient does not have the shape of the weights or biases is refused with an error and changes no weight and no bias, and a later valid update behaves as if the refused one had not happened.",
  ["inputs", "histories"], "all settings, all gradient shapes, all positions of the bad update in a sequence",
  "No test constructs an invalid optimizer or passes a gradient of the wrong shape.",
  ["optimizers.go"], [("constructor checks and shape checks", "optimizers.go: NewSGDOptimizer, NewAdamOptimizer, Update")], ["NewSGDOptimizer", "NewAdamOptimizer", "Optimizer.Update"])

p("C17", "Dropout drops with its probability, scales survivors, and is off at inference",
  "In training, each output of a dropout layer is either dropped to zero or equals the plain ReLU output divided by (1 - dropout), decided by its own independent random draw that drops with probability equal to the dropout rate. The following backward pass returns the gradients of exactly that masked and scaled output. When not training, no output is dropped or scaled, and the backward pass is that of the plain ReLU layer.",
  ["inputs", "configurations", "histories"], "every dropout rate in [0,1), layer and batch size, parameters, inputs, and every outcome of the random draws",
  "TestDropoutLayer runs one random pass and compares nothing.",
  ["network.go", "binomial.go", "model.go"], [("mask and scaling", "network.go: DropoutLayer.Forward/ForwardNoDropout/Backward"), ("random draw", "binomial.go: Rand"), ("training flag", "model.go: Forward")],
  ["DropoutLayer.Forward", "DropoutLayer.ForwardNoDropout", "DropoutLayer.Backward", "Model.Forward"],
  [("mask", "which outputs were kept", "network.go: binaryMask")])

p("C18", "Models are assembled only from parts whose sizes fit",
  "A layer is accepted exactly when the model is empty or the layer's input size equals the current output size, and the model's input size, output size and layer count always describe the layers accepted so far; a refused layer leaves the model unchanged. Finalizing succeeds exactly when the loss size equals the output size, the optimizer kind is known and the accuracy precision is not negative, and then gives every layer its own fresh optimizer with the given settings. Layers, losses and layer parameters with sizes below one or out-of-range slope or dropout are refused with an error.",
  ["inputs", "histories", "configurations"], "every sequence of added layers with any sizes, every loss size, optimizer setting and precision",
  "Tests only assemble models that fit.",
  ["model.go", "network.go", "loss.go", "optimizers.go"], [("size chain check", "model.go: AddLayer"), ("loss, optimizer, precision checks", "model.go: Finalize"), ("constructors", "network.go, loss.go")],
  ["Model.AddLayer", "Model.Finalize", "New*Layer", "New*Loss"])

p("C19", "Inference composes the layers and is a pure function of the model",
  "A forward pass returns the input followed by every layer's output, each computed by that layer from the previous one; predictions are the final output, the index of each row's largest value, or the values thresholded at 0.5, according to the accuracy kind. Prediction, loss and accuracy use no dropout, and leave the model's parameters, the inputs and the labels unchanged, so repeating them gives the same result. An input of the wrong width is refused with an error.",
  ["inputs", "configurations", "histories"], "every model, batch, parameter values and interleaving of prediction, loss and accuracy calls",
  "TestModel runs one prediction on one row and ignores its value.",
  ["model.go", "network.go", "misc.go", "accuracy.go"], [("layer loop", "model.go: Forward"), ("output interpretation", "model.go: Predict, CalculateLoss, CalculateAccuracy")],
  ["Model.Forward", "Model.Predict", "Model.CalculateLoss", "Model.CalculateAccuracy"])

p("C20", "Model gradients are the derivatives of the model's loss",
  "For every model and batch, the gradients a backward pass returns after a forward pass are, for each layer (listed from the last to the first), the derivatives of the loss of that forward pass with respect to each weight and bias of that layer, away from kinks. This holds for every combination of layer kinds and loss, with or without the fused softmax/cross-entropy path. Inputs, labels, outputs of the forward pass and parameters are left unchanged.",
  ["inputs", "configurations"], "every architecture within the bound, all parameters, inputs and labels",
  "No test compares any gradient with anything.",
  ["model.go", "network.go", "loss.go"], [("reverse layer loop", "model.go: Backward")], ["Model.Backward"])

p("C21", "Fitting runs one update per batch, over every sample once per epoch, in order",
  "Fitting for some number of epochs is equivalent to repeating, per epoch, for consecutive batches of the requested size (the last one shorter if the size does not divide the sample count; one batch of everything if the size is zero): forward pass in training mode, backward pass, one optimizer update of every layer with its own gradients. Every sample is used exactly once per epoch. Logging and validation only observe: they change neither parameters nor optimizer state.",
  ["inputs", "histories", "configurations"], "every sample count, batch size (including larger than the data), epoch count, optimizer, log interval and validation set",
  "TestTrainModel and the examples only check that no error is returned.",
  ["model.go"], [("epoch and batch loops", "model.go: Fit")], ["Model.Fit", "parameters after Fit"])

p("C22", "Training and evaluation never modify the caller's data",
  "Fitting a model, whatever its layers, loss and optimizer, and computing loss, accuracy, predictions or gradients leaves every element of the caller's training inputs and labels, validation inputs and labels, and their shapes, exactly as they were. Trained models share no storage with the caller's data, so changing the data afterwards does not change the model.",
  ["inputs", "configurations", "histories"], "every model built from the provided layers, losses and optimizers, and all data",
  "No test looks at its data after training.",
  ["model.go", "network.go", "activation.go", "loss.go", "accuracy.go", "misc.go"], [("operations work on fresh matrices", "network.go, loss.go, misc.go, matrix.go")], ["caller's matrices after Model.Fit/CalculateLoss/CalculateAccuracy/Predict"])

p("C23", "Saving and loading a layer reproduces it exactly",
  "Loading the bytes written for a layer gives a layer of the same kind with the same sizes, slope or dropout and bit-for-bit the same weights and biases, so its forward pass gives the same results; exactly the written bytes are consumed. A layer whose parameters do not match its declared sizes is refused with an error when saved.",
  ["inputs", "configurations"], "every layer kind, size, slope, dropout and parameter bit pattern",
  "TestLayerData saves one hidden layer and only logs the loaded weights.",
  ["layer_data.go"], [("layer encoder and decoder", "layer_data.go: SerializeLayer, LoadLayer")], ["NewSavedLayerData", "SerializeLayer", "LoadLayer"])

p("C24", "Saving and loading a model reproduces it exactly",
  "Loading the bytes written for a finalized model gives a model with the same layers, parameters, sizes, loss kind, accuracy kind and precision, and optimizer kind and settings, so that predictions, loss and accuracy are the same and further training from fresh optimizer state takes the same steps. This holds whatever order the settings were written in. A model that the format cannot represent is refused with an error when saved, never written wrongly.",
  ["inputs", "configurations"], "every architecture, loss, accuracy kind, optimizer settings, parameter bit pattern, and every iteration order of the settings",
  "TestModelData loads one model and only checks that a loss can be computed.",
  ["model_data.go", "layer_data.go", "model.go", "optimizers.go"], [("model encoder and decoder", "model_data.go: Serialize, LoadModel"), ("rebuilding loss and optimizer", "model_data.go: loadLoss, loadOptimizer")],
  ["NewSavedModelData", "Serialize", "LoadModel"])

p("C25", "Loading arbitrary bytes gives a well-formed model or an error",
  "Whatever bytes are given, loading a layer or a model either returns an error or a well-formed result: layers of a known kind whose sizes are positive and chain together, with parameters of matching shape. It never crashes, never loops forever, and never allocates more than a small multiple of the size of the data. Truncating valid data always gives an error.",
  ["inputs"], "every byte string (and every truncation of a valid one)",
  "Only data just written by the library is ever loaded.",
  ["model_data.go", "layer_data.go"], [("decoding with checks", "layer_data.go: LoadLayer; model_data.go: LoadModel")], ["LoadLayer", "LoadModel"])

p("C26", "The saved formats follow the documented layout",
  "The bytes written for layers and models follow the documented tables: magic, (version,) kind and size fields of the documented widths in little-endian order, slope, dropout, weights then biases row by row; for models the header fields, the count-prefixed settings and then the layers. Data in this layout produced by any other writer is loaded to exactly the values it spells out.",
  ["inputs", "configurations"], "every field value and parameter bit pattern",
  "Tests never look at the bytes, so a symmetric change of writer and reader would go unnoticed and orphan all saved files.",
  ["layer_data.go", "model_data.go", "LayerData.md", "ModelData.md"], [("encoder and decoder", "layer_data.go, model_data.go")], ["bytes of SerializeLayer/Serialize", "LoadLayer/LoadModel"])

p("C27", "Saving to and loading from files is faithful, and failures are reported",
  "If saving a model to a file reports success, the file holds exactly the model's serialized bytes, and loading that file gives the same model. If creating or writing the file fails, or the model cannot be serialized, an error is returned, and in the latter case a file that existed before is left intact. Loading reports an error for a missing, unreadable or short file.",
  ["inputs", "fault_sequences"], "every model within the bound and every single failure of an open, create, stat, read or write call",
  "TestModelSaveLoad saves and loads once without faults.",
  ["model_data.go"], [("file handling", "model_data.go: SaveFile, LoadFile")], ["SaveFile", "LoadFile"])

p("C28", "Accuracy metrics count exactly what they define",
  "Regression accuracy is the fraction of elements whose absolute error is below the precision; categorical accuracy is the fraction of rows whose largest prediction is at the labelled class; binary accuracy is the fraction of elements whose prediction, thresholded at 0.5, equals the label. All lie in [0,1] and leave predictions and labels unchanged. The model reports the metric it was finalized with.",
  ["inputs"], "every shape, predictions, labels and precision",
  "One or two rows per metric; categorical and binary tests only see perfect predictions.",
  ["accuracy.go", "misc.go", "model.go"], [("metrics", "accuracy.go"), ("selection", "model.go: CalculateAccuracy")], ["RegressionAccuracy", "CategoricalAccuracy", "BinaryCategoricalAccuracy", "Model.CalculateAccuracy"])

p("C29", "Label conversions are exact and total",
  "The row maximum gives for each row the first index holding the row's largest value, also when all values are negative; one-hot encoding puts a single 1 at each label's index and 0 elsewhere, and taking the row maximum of it gives back the labels. Thresholding maps values below 0.5 to 0 and all others to 1. A label outside the range, or a non-positive size, is refused with an error, and no input is changed.",
  ["inputs"], "every shape, all finite values, all integer labels in and out of range",
  "Tests check one element of one example each, with positive values only.",
  ["misc.go"], [("conversions", "misc.go: RowMax, SparseToOneHot, OutputBinaryValues")], ["RowMax", "SparseToOneHot", "OutputBinaryValues"])

p("C30", "Shuffling permutes samples and labels together",
  "Shuffling a data set returns the same samples with the same labels in some order: every (sample, label) pair appears exactly as often as before, none is lost, duplicated or mismatched, and the shapes are unchanged. This holds for every outcome of the random number generator, and every order is reachable.",
  ["inputs", "schedules"], "every number of samples within the bound, all values and all random outcomes",
  "TestShuffleDataset checks nothing.",
  ["misc.go"], [("paired swaps", "misc.go: ShuffleDataset")], ["ShuffleDataset"])

p("C31", "Initialization draws every weight independently at He scale",
  "Initializing a layer sets every weight to its own fresh standard-normal draw times sqrt(2/inputs) and leaves the biases as they were (zero for a new layer); nothing is written outside the weights. Initializing a model does this for every layer.",
  ["inputs", "configurations"], "every layer kind and size, and all outcomes of the random draws",
  "Tests call Init and never look at the weights.",
  ["network.go", "model.go"], [("weight initialization", "network.go: Init of each layer; model.go: InitLayers")], ["Weights and Biases after Init/InitLayers"])

p("C32", "Errors are reported as errors whether or not logging was set up",
  "Fitting, evaluating and loading behave the same whether or not the loggers were initialized: a bad input gives an error, never a crash, and log output is simply dropped when logging was not set up. After a quiet initialization nothing is printed, after a verbose one output goes to standard output, and with a log file it is appended to that file; failing to open it is reported as an error.",
  ["inputs", "configurations", "fault_sequences"], "every combination of logging mode and of good or bad inputs to fitting and loading, including models from another version",
  "Every test that fits or loads initializes logging first and passes good inputs.",
  ["nn.go", "model.go", "model_data.go"], [("package loggers", "nn.go: InitLogger"), ("log calls on error paths", "model.go: Fit; model_data.go: LoadModel")], ["Model.Fit", "LoadModel", "InitLogger"])

p("C33", "Samples of a batch do not influence each other's outputs",
  "Row i of the output of a layer or model (without dropout) depends only on row i of the input: passing a batch gives, row by row, exactly the results of passing each sample alone, and permuting the rows of the batch permutes the outputs. The parameter gradients of a layer for a batch are the sums of the gradients of its samples (the averages, for the combined softmax/cross-entropy gradient).",
  ["inputs", "configurations"], "every layer kind, batch size, parameters and inputs",
  "Tests never compare a batch with its single samples.",
  ["network.go", "activation.go", "model.go", "matrix.go"], [("row-wise computation", "network.go: Forward; activation.go")], ["Layer.Forward", "Layer.Backward", "Model.Predict"])

p("C34", "The binomial sampler stays within range and counts its trials",
  "For fewer than 25 trials, a binomial sample is an integer between 0 and the number of trials equal to the number of independent uniform draws that count as successes, where one draw succeeds with exactly the requested probability; probability 0 gives 0 and probability 1 gives all trials. Exactly one draw is used per trial.",
  ["inputs"], "every trial count below 25, every probability in [0,1] and every outcome of the draws",
  "No test calls the sampler directly.",
  ["binomial.go"], [("direct method", "binomial.go: Rand")], ["dropout masks (one trial per output)"])

p("C35", "Large-count binomial samples follow the binomial distribution",
  "For 25 or more trials the sampler terminates with probability 1 and its results are distributed as a binomial with the requested parameters.",
  ["inputs"], "every trial count from 25 up and every probability",
  "No test calls the sampler, and a distribution cannot be checked on samples exactly.",
  ["binomial.go"], [("rejection sampling", "binomial.go: Rand")], ["binomial samples"])

p("C36", "Training reaches a good fit on learnable data",
  "On a learnable data set, fitting with suitable settings drives the loss down and the accuracy up from their initial values.",
  ["inputs", "histories"], "every learnable data set, architecture, seed and training length",
  "The example tests train on three data sets and check only that no error occurs.",
  ["model.go", "optimizers.go"], [("training loop", "model.go: Fit")], ["loss and accuracy after Fit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
