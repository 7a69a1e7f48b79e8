"""The properties: one entry per check. gen.py writes properties.jsonl and MANIFEST.json from this file and checks.py."""
ENG = "lib/pbt.hpp"
GEN = "the examples under test/ run a handful of fixed expressions and mostly print their results; "

P = {}

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, title
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, state=state or [])

OP = "include/operation.hpp"

TT = "include/tensor.tcc"
TH = "include/tensor.hpp"

prop("C01", "Tensor arithmetic is elementwise, broadcasts, and leaves operands alone",
     "For all int, float and double tensors, + and - (add, minus) give the element-wise sum and difference under numpy broadcasting, elementwise_product/hadamard_product and elementwise_divide the product and quotient of tensors of equal (products: also trailing-part) shapes, operators with a number on either side apply it to every element, and unary minus negates. "
     "Neither operand is modified, also when both are the same tensor, and the result shares no elements with them; += -= *= /= with a tensor or a number change exactly the left operand to the value of the corresponding operation. "
     "broadcast_shape and broadcast_tensor follow the numpy rules.",
     ["inputs"], "int, float and double tensors of 1-5 dimensions with up to 1500 elements, equal, trailing-part and mutually broadcast shapes, numbers on either side",
     GEN + "operands after the operation and broadcasting of both operands are not asserted.",
     [TT], [("operators and broadcasting", TT)], ["result, operands, independence of the result"])

prop("C02", "Matrix products equal the triple sum for all shapes and transpositions",
     "For all floating-point matrices, gemm with any combination of transposed operands, and the product (operator *, multiply) of 1-D and 2-D tensors, also into an existing result of any previous content, equal the sum over the inner dimension, leaving the operands with their data and shape. "
     "As an expression, the product of variables, constants, products or transposes yields the same value, its gradients are G*B^T and A^T*G (summed when the same matrix is used twice), and one product evaluated on batches of different sizes gives each batch its own result.",
     ["inputs", "histories"], "extents up to 70, float and double, every transposition, dirty results, shared operands, changing batch sizes",
     GEN + "a few fixed matrices are multiplied.",
     [TT, OP], [("gemm, multiply, operator *", TT), ("multiplication expression", OP)], ["value, operands, gradients"])

prop("C03", "Tensor handles share storage exactly when copied, and reshape in place",
     "Over every history of creating, copying, moving, deep-copying, reshaping, resizing to the same size, writing and destroying tensors, a copy, a reshaped or a squeezed tensor shares its elements with the original, and deep_copy, copy, arithmetic results, repeat, flip, repmat, concatenate and as_type share theirs with nobody. "
     "Reshaping (also with a last extent of -1), squeeze and resize to the same size keep the elements in row-major order and affect the shape of that handle alone; every handle's size, dimensions and shape agree with its elements. concatenate, repmat, repeat and flip place every element where their definition says.",
     ["histories", "inputs"], "histories of up to 46 operations over any number of handles; concatenation along every axis of 1-5 dimensional tensors",
     GEN + "no test looks at storage shared between handles.",
     [TH, TT, "include/utils/vector.hpp"], [("tensor handle", TH), ("shape functions", TT)], ["content, shape and address of all handles after every step"])

prop("C04", "Tensor reductions, extrema, statistics and predicates are exact for all values",
     "For all tensors, max, min, sum, mean, reduce_sum, reduce_mean and abs over all elements, and sum, max, min, reduce, mean, variance and standard_deviation along any axis (default: the last), with or without keeping the reduced axis, equal their mathematical definition, also for all-negative, tied and widely spread values and one-element axes. "
     "has_nan, has_inf and is_valid report a NaN or infinity wherever it is and nothing else, and softmax of a tensor gives non-negative rows summing to one for inputs of any magnitude.",
     ["inputs"], "int, float and double tensors of 1-5 dimensions, every axis, NaN and infinities at any position, softmax inputs up to +-500",
     GEN + "only positive examples are reduced.",
     [TT], [("reductions and predicates", TT)], ["value and shape of the result, operand"])

prop("C05", "Created tensors have the requested shape and content or distribution",
     "zeros, ones, their *_like forms, filled tensors and linspace (with or without its end point) hold exactly the requested values for every shape, whatever memory was in use before. "
     "random, rand, randn, *_like, truncated_normal, glorot_uniform and poisson yield tensors of the requested shape with values in the requested range and the requested mean and deviation, draw afresh at every call, and reproduce the same values after seeding the generator again.",
     ["inputs", "histories"], "shapes of 1-5 dimensions, parameters over their ranges, moments of large samples within 8 standard errors",
     GEN + "tests print random tensors without checking them.",
     [TT, TH], [("tensor creation", TT)], ["content, moments, reproducibility"])

prop("C06", "Saving and loading tensors gives back the same shape and bits",
     "For every int, float or double tensor with finite values (extreme, tiny and signed zeros included), save_tensor followed by load_tensor, or write_tensor followed by read_tensor on any stream (several tensors one after another, any precision set on the stream), gives a tensor of the same shape with identical values, and saving changes neither the tensor nor the stream's precision. "
     "A file is replaced by saving again, a file written by hand in the documented format loads as described, and one whose element count disagrees with its shape is refused. When the disk fills up or the directory does not exist, saving stops with a diagnostic. Printing a tensor shows all extents and elements in order.",
     ["inputs", "faults"], "tensors of 1-5 dimensions, sequences of saves to the same files, streams with any precision, malformed element counts",
     GEN + "no test reads back what it saved.",
     [TT], [("read_tensor, write_tensor, save_tensor, load_tensor, operator <<", TT)], ["loaded shape and values"])

prop("C07", "Views, strided iterators, ranges and parallel loops visit exact elements once",
     "Reading or writing view_1d to view_4d and view<T,N> at any index touches exactly the row-major element; rows, columns, begin and end of a view_2d and strided iterators (any stride sign, any walk) visit exactly the elements they name. "
     "range with a step or comparison, enumerate and reverse visit what the plain loop would. parallel and for_each call the function exactly once for every index or position of [first, last), whatever the bounds, integer type and threshold, and are free of data races between different indices.",
     ["inputs", "schedules"], "extents up to 300 elements in 1-7 dimensions, loops of 0-3000 indices starting anywhere, real threads (also under ThreadSanitizer)",
     GEN + "parallel loops are only used from zero.",
     ["include/utils/view.hpp", "include/utils/stride_iterator.hpp", "include/utils/range.hpp", "include/utils/parallel.hpp", "include/utils/for_each.hpp"],
     [("views", "include/utils/view.hpp"), ("parallel loops", "include/utils/parallel.hpp")], ["elements visited or changed"])

prop("C08", "Unary math operators compute their function and its derivative",
     "For every element-wise unary mathematical operator (abs, trigonometric, hyperbolic and their inverses, exp/log families, erf, sqrt, cbrt, square, sign, rounding, negation, inverse) and every tensor within its domain, evaluating the expression yields the mathematical function of each element in a result of the operand's shape, and backpropagation gives the operand the upstream gradient times the function's derivative. "
     "Neither the operand's data nor the upstream gradient is modified, and evaluating again yields the same result. The rounding operators (ceil, floor, round, trunc, rint, ...) are covered for their value only.",
     ["inputs"], "every operator of the family, tensors of 1-4 dimensions with up to 1500 elements and values over the operator's domain, arbitrary upstream gradients",
     GEN + "no test covers the gradients of these operators over their domains.",
     [OP, "include/tensor.tcc"], [("element-wise unary operators", OP)], ["value, gradient, operand data after evaluation"])

prop("C09", "Binary elementwise operators: broadcast values and exact gradients",
     "For every element-wise binary operator (plus, minus, element-wise product, divide, maximum, minimum, hypot, atan2, equal, clip, pow) between expressions, constants, value<> scalars or plain numbers on either side, the result is the operation applied element by element under broadcasting: + and - broadcast as in numpy, products and quotients broadcast an operand whose shape is a trailing part of the other's, and maximum, minimum, hypot, atan2 and equal take equal shapes. "
     "Backpropagation gives each operand the derivative with respect to it, summed over the elements it was broadcast to, in the operand's own shape. Neither the operands nor the upstream gradient is modified, including when the same expression is used on both sides.",
     ["inputs"], "every operator and operand kind, all broadcastable shape pairs of up to 4 dimensions, values including ties and clip bounds",
     GEN + "broadcast gradients and shared operands are not asserted anywhere.",
     [OP, "include/tensor.tcc", "include/value.hpp"], [("binary operators and their broadcasting gradients", OP), ("tensor broadcasting", "include/tensor.tcc")], ["value, gradients, operands after evaluation"])

prop("C10", "Reductions along an axis or in total, and their gradients",
     "reduce_sum, reduce_min, reduce_max, argmax and argmin along any axis (default: the last for reduce_*, the first for arg*), and sum_reduce, mean_reduce/reduce_mean/mean and reduce_sum over all elements, give for every tensor the mathematical reduction (the first index for ties of arg*) with the reduced axis removed. "
     "The gradient of a sum reaches every element summed; the gradient of an extremum goes to exactly one extremal element per reduced group and nothing else; the gradient of a mean is the upstream gradient divided by the number of elements, and that of argmax and argmin is zero.",
     ["inputs"], "tensors of 1-4 dimensions, every axis and the default axis, distinct and tied values, arbitrary upstream gradients",
     GEN + "a test samples one shape and one axis.",
     [OP, "include/tensor.tcc"], [("reduce_*/argmax/argmin operators", OP)], ["value, declared shape, gradient"])

prop("C11", "Reshaping and data-movement operators move every element and gradient right",
     "reshape, flatten, expand_dims, squeeze, identity, repeat, broadcast, flip, transpose, concatenate, zero_padding_2d, cropping_2d, sliding_2d, ones_like and zeros_like place each input element exactly where their definition says for every shape, axis and amount, filling the rest with the documented constant. "
     "Backpropagation sends to every input element exactly the sum of the upstream gradients of the places it was copied to. sliding_2d shifts each channel by one amount not exceeding the given pixels while training, and is the identity otherwise.",
     ["inputs"], "tensors of 1-4 dimensions, every axis, every repetition/padding/cropping amount up to 4",
     GEN + "each operator is sampled with one shape.",
     [OP, "include/tensor.tcc"], [("shape and movement operators", OP)], ["value, declared shape, gradient"])

prop("C12", "2D pooling and up-sampling compute blockwise results and gradients",
     "For every 4D tensor (batch, row, column, channel) and stride k, max_pooling_2d and average_pooling_2d give the maximum or the mean of every complete k by k block of each channel, also when the extents are not divisible by k, and up_sampling_2d repeats each element over a k by k block. "
     "Backpropagation sends the gradient of a maximum to exactly one maximal element of its block, spreads the gradient of an average evenly over its block, and sums the gradients over each up-sampled block; evaluating again with other data, or building several operators from one factory, leaves no trace of earlier evaluations.",
     ["inputs", "histories"], "4D tensors with all-negative, tied and distinct values, strides 2-4, divisible and non-divisible extents, successive inputs",
     GEN + "a single fixed image is pooled once.",
     [OP], [("max_pooling_2d, average_pooling_2d, up_sampling_2d", OP)], ["value, gradient"])

prop("C13", "2D convolutions, transposed convolutions and img2col match their definition",
     "For every image batch (batch, row, column, channel), filters (number, rows, columns, channels), stride, dilation and padding mode, conv2d and general_conv2d equal the direct cross-correlation, also when a place holder is bound to batches of different sizes; padding 'same' with a stride dividing the extents gives extents divided by the stride. "
     "conv2d_transpose adds a scaled copy of the kernel at every strided position of the output (valid: full extent, same: extent times stride), and img2col lists exactly the receptive field of every output position with zeros for the padding. The gradients with respect to image and filters are the derivatives of these functions.",
     ["inputs", "configurations"], "extents up to about 10, kernels up to 3x3, strides up to 3, dilations up to 2, several channels/filters/batches; 'same' with an even total padding; transposed convolution with dilation 1 (odd kernels for 'same')",
     GEN + "convolutions are only exercised inside training examples whose numbers nobody checks.",
     [OP], [("img2col, conv2d, general_conv2d, conv2d_transpose", OP)], ["value, declared shape, gradients"])

prop("C16", "Activation functions compute their published function and derivative",
     "For every activation (relu family, relu6, leaky_relu, prelu, elu, selu, softplus, softsign, sigmoid, hard_sigmoid, gelu, gaussian, swish/silu, mish, lisht, tank_shrink, heaviside/soft step, crelu, softmax, exponential) and every tensor, evaluation yields the published function element by element (softmax: along the last dimension; crelu: doubling the last dimension), and backpropagation the exact derivative, including the full Jacobian of softmax. "
     "Softmax rows are non-negative, sum to one and are invariant to adding a constant for inputs of any magnitude, saturating activations stay within their range and monotone, and neither operand nor upstream gradient is modified.",
     ["inputs"], "tensors of 1-4 dimensions, values on both sides of every breakpoint and up to +-700 for the saturating ones",
     GEN + "gradients of activations are not asserted.",
     ["include/activation.hpp"], [("activations", "include/activation.hpp")], ["value, gradient"])

prop("C14", "Batch normalization normalizes, tracks running averages, and differentiates",
     "While training, normalization_batch subtracts from every element of the last axis's channel the mean of that channel over all other axes and divides by its standard deviation, and batch_normalization scales and offsets the result with gamma and beta. The gradients of input, gamma and beta are the derivatives of that function, including the dependence of mean and variance on the input. "
     "The running averages follow momentum*old+(1-momentum)*new starting from the first training batch, and outside training they replace the statistics of the batch; over any history of training and predicting with batches of any sizes neither input nor upstream gradient is modified.",
     ["inputs", "histories"], "tensors of 2-4 dimensions, momenta in 0.05-0.99, histories of up to 8 training or predicting runs with changing batch sizes, float and double",
     GEN + "batch normalization is only printed.",
     [OP, "include/tensor.tcc"], [("normalization_batch, batch_normalization", OP)], ["value, gradients, later values in the history"])

prop("C15", "Dropout drops at its rate, scales what it keeps, and is off outside training",
     "While training, dropout(p) and drop_out(p) replace each element independently by 0 with probability p and by x/(1-p) otherwise, drawing afresh in every run, and backpropagation passes g/(1-p) to exactly the elements kept in that run. Outside training it is the identity, also for its gradient, whatever ran before and however the batch size changes. "
     "Within one run a dropout used several times drops the same elements everywhere; two dropouts, also of one factory, drop independently; random_normal_like has the requested mean, deviation and shape and stops gradients.",
     ["inputs", "histories"], "rates 0.05-0.95, histories of up to 9 training or predicting runs with changing batch sizes, frequencies over 12000+ draws within 8 standard errors",
     GEN + "random operators are never asserted.",
     [OP], [("drop_out, random_normal_like", OP)], ["value, gradient, frequency"])

LOSS = "include/loss.hpp"
prop("C17", "Loss functions compute their published value and its derivative",
     "squared, absolute, mean squared, mean absolute, mean squared logarithmic, hinge, binary cross-entropy, cross_entropy and cross_entropy_loss (one-hot labels, optionally smoothed, logits of any magnitude) evaluate to their published definition as a one-element tensor. "
     "The gradients are the derivatives with respect to the prediction (and, where defined, the truth), and neither side nor the upstream gradient is modified. The interfaces used by models (MSE, MAE, Hinge, BinaryCrossentropy, CategoricalCrossentropy, ...) applied to an output and a place holder compute the same, also after binding the place holder again.",
     ["inputs"], "tensors of 1-4 dimensions, values of both signs, probabilities, logits up to +-240, float and double",
     GEN + "losses are only decreased during training, never checked.",
     [LOSS, OP], [("losses and their model interfaces", LOSS)], ["value, declared shape, gradients"])

prop("C18", "Any composition of operators evaluates right and gets exact gradients",
     "For every expression composed of operators over variables, constants, numbers and place holders - of any topology, with variables and subexpressions used any number of times, including fully connected networks with shared weights and skip connections - evaluation yields the composition of the operators' functions. "
     "Backpropagating an upstream gradient gives every variable the total derivative of the result with respect to it, summed over all the paths, and modifies neither data nor upstream gradient.",
     ["inputs", "configurations"], "random expressions of 3-30 operators from about 55, 1-3 variables, up to 2 place holders, extents up to about 60 elements, double",
     GEN + "the gradient of a composition is never compared with anything.",
     [OP, "include/activation.hpp", "include/variable.hpp"], [("unary_operator, binary_operator", OP)], ["value, gradient of all variables"])

prop("C19", "Evaluations leave no trace: fresh results, stable old ones, no interference",
     "Over every history of assigning variables, binding place holders to batches of any size, evaluating and backpropagating any of several expressions with common subexpressions, switching the learning phase and building further expressions, each evaluation equals the one of a newly built expression on the present data. "
     "A tensor returned earlier never changes, overwriting it changes no later evaluation, gradients of variables outside an expression stay, and copies of an expression and expressions made by one operator factory do not influence each other.",
     ["histories"], "histories of up to 25 steps over up to 4 expressions, batches of 1-6, 20 operator factories applied to two operands of different sizes",
     GEN + "each test evaluates an expression once or in a fixed loop.",
     [OP, "include/session.hpp", "include/place_holder.hpp", "include/variable.hpp"], [("forward cache", "include/session.hpp"), ("operator state", OP)], ["value and gradient after every step, all earlier results"],
     [("forward_cache_", "results of the current evaluation by operator id", "include/session.hpp"), ("state_", "input buffers shared by copies of an operator", OP)])

prop("C20", "The declared shape of every expression is the shape of its value",
     "For every expression, shape() gives, before and after evaluating, exactly the shape that evaluating it with the bound place holders has, for every subexpression. "
     "Before a place holder declared with the shape of one sample is bound, the declared shapes are those of a batch of one.",
     ["inputs", "configurations"], "random expressions of 3-30 operators from about 55 over variables, constants and place holders, batches of 1-6",
     GEN + "shape() is only printed.",
     [OP, "include/place_holder.hpp", "include/value.hpp"], [("output shape calculators", OP)], ["declared shape"])

OPT = "include/optimizer.hpp"
prop("C21", "Optimizer steps follow their published update rules over any history",
     "For gradient descent, sgd (momentum, decay, nesterov), adagrad, rmsprop, adadelta and adam with any parameters and batch size, over any history of steps, other evaluations, assignments and switches of the optimizer, each step moves every element of every trainable variable of the loss as the published update rule says for the gradient of that run, the rate divided by the batch size and the moments starting from zero (rmsprop's from the first squared gradient; adam's first two steps are plain gradient steps). "
     "The step clears the gradients, leaves frozen variables and variables the loss does not depend on where they are, and gradients of evaluations not followed by a step do not count. The learning rate decays with the number of steps, compounding or not.",
     ["histories", "configurations"], "histories of up to 10 steps of 6 optimizers over 3 variables of up to 60 elements, float and double, gradients including exact zeros",
     GEN + "a loss that decreases hides a wrong update rule.",
     [OPT, "include/variable.hpp"], [("optimizers", OPT)], ["movement of every element", "gradients after the step"],
     [("contexts", "moments of a variable", "include/variable.hpp")])

prop("C22", "Regularizers add their penalty's gradient once and frozen variables stay",
     "For every expression over variables with l1 and l2 coefficients, backpropagation adds l1*sign(w)+2*l2*w exactly once to the gradient of each variable of the expression, however often the variable occurs, in however many runs. "
     "A variable that is not trainable gets no gradient and does not move in optimizer steps while the others are unaffected. The flag and the coefficients hold for all copies of a variable, whether set in the constructor, before or after building expressions, through a copy, or for all variables of an expression or model at once by make_trainable and trainable.",
     ["inputs", "histories"], "random expressions of 3-14 operators with 1-3 variables, up to 4 runs or optimizer steps, up to 7 switches",
     GEN + "regularizers and frozen variables are not tested.",
     ["include/variable.hpp", OP, "include/model.hpp", "include/layer.hpp"], [("regularizers and trainable flag", "include/variable.hpp"), ("make_trainable", OP)], ["gradient, data"],
     [("variable_state", "data, gradient and moments shared by copies of a variable", "include/variable.hpp")])

prop("C24", "Layers create the right variables, shapes, values and gradients",
     "For every network of Input, Dense, Conv1D, Conv2D, Conv2DTranspose, BatchNormalization, pooling, upsampling, activation, merging and reshaping layers, each layer creates exactly its variables in the shape, initial range, regularizers and trainable flag requested (use_bias, kernel and bias l1/l2), declares the shape of its output, and computes its definition from its parameters for every batch size. "
     "The gradients of all parameters are those of the definition plus regularization.",
     ["inputs", "configurations"], "random networks of 1-8 layers over inputs of 1-3 dimensions, two batch sizes each",
     GEN + "layers are used in examples whose numbers nobody checks.",
     ["include/layer.hpp", OP, "include/activation.hpp"], [("layers", "include/layer.hpp")], ["variables, declared shapes, values, gradients"])

MODEL = "include/model.hpp"
prop("C23", "Models train, evaluate, predict and compose as their definition says",
     "For every network, train_on_batch returns the loss before the update and moves the trainable parameters by one optimizer step on that batch; fit does exactly what training on its training batches and evaluating its validation batches in turn does, epoch by epoch, and returns their mean errors; evaluate gives the mean loss over all whole batches and predict the network's output, both with running averages and without dropout, changing no weights or data and leaving the training phase switched on afterwards. "
     "A model applied to an expression or to another model is the composition of the functions sharing the model's variables, with exact gradients.",
     ["histories", "inputs", "configurations"], "random networks of 2-7 layers, histories of up to 8 calls, batches of 1-8, 1-3 epochs, validation splits in eighths, 4 losses with 4 optimizers, 7 kinds of composition of 7 models",
     GEN + "training examples are only checked to run.",
     [MODEL, "include/session.hpp", OP], [("compiled_model", MODEL), ("replace_placeholder_with_expression", MODEL)], ["returned losses and predictions", "weights", "learning phase"])

prop("C25", "Saving a session and restoring it brings back every variable bit for bit",
     "For every session, saving stores the exact value of every variable and changes none of them; restoring brings every stored variable, and all its copies and the expressions and models over it, back to exactly the stored value and shape, in the same process or in another one that built the same variables, and leaves variables unknown to the file alone. "
     "Files are independent of each other, hold what was last saved under their name, and no temporary file remains. "
     "Files that do not exist, are cut short, or hold variables the session does not know are rejected, never half accepted; when the disk fills up at any byte, saving or restoring stops with a diagnostic.",
     ["inputs", "histories", "fault_sequences"], "float and double sessions with up to 7 variables of 1-4 dimensions, extreme finite values included, histories of up to 25 steps over 1-3 files, random networks trained in one process and loaded in another, cuts at any byte, a disk filling up at any byte",
     GEN + "the only session test saves and loads one small model once.",
     ["include/session.hpp", TT, "include/utils/lzw.hpp", MODEL], [("session::save", "include/session.hpp"), ("session::restore", "include/session.hpp")], ["variables", "files", "predictions after loading"])

prop("C29", "Compression of saved data is lossless, and damaged files are recognised",
     "For every byte sequence of any length and content, decompressing what compress wrote gives exactly the same bytes. "
     "Decompressing any other byte sequence ends: it is rejected when it is not a complete well-formed stream, truncation at any byte included, and otherwise yields exactly the bytes the stream describes; it never crashes, hangs or reads out of bounds.",
     ["inputs", "fault_sequences"], "byte strings of 0-60000 bytes of 7 kinds, inputs ending within two entries of every code width change and of the dictionary reset at 2^20 entries, truncations, bit flips, insertions, removals and random bytes",
     "no test compresses anything but the few kilobytes of one saved model, far below the sizes where codes widen or the dictionary resets.",
     ["include/utils/lzw.hpp"], [("lzw::compress", "include/utils/lzw.hpp"), ("lzw::decompress", "include/utils/lzw.hpp")], ["compressed and decompressed bytes", "rejection"])

prop("C26", "Complex expressions compute complex matrix arithmetic with exact gradients",
     "For every pair of real expressions as real and imaginary part, and every composition of +, -, * (matrix product, in operand order) between complex expressions and with real expressions on either side, unary + and -, conj and polar, the real and imaginary parts equal the arithmetic of complex matrices, and real, imag, abs, norm and arg give the parts, magnitude, squared magnitude and phase element by element. "
     "The gradient of every variable reached is the derivative of that value, however often a part is shared.",
     ["inputs", "programs"], "complex expressions of up to 6 operators over shared matrices of up to 3x3, elements up to 1.2, results up to 500",
     GEN + "the complex tests print values of all-ones matrices.",
     ["include/complex_operator.hpp", OP], [("complex", "include/complex_operator.hpp")], ["values of the parts", "gradients of the variables"])

prop("C28", "Tensor memory is private to its sharers, zeroed, reused and released once",
     "For every history of creating, copying, deep copying, assigning, moving, resizing, releasing and writing tensors of any element type and number of dimensions, new elements are zero (with the caching allocator), tensors share elements exactly when one was made as a copy of the other, every tensor keeps its own shape and elements whatever happens to the others and to the memory of released ones, and every block is released exactly once with the size it was taken with. "
     "The same holds for tensors using the standard allocator or small inline buffers, below and above the size of the buffer, and for the shapes and vectors these are built from. "
     "Running out of memory gives back the memory kept for reuse and tries again; when that fails too the tensor can still be resized, assigned or destroyed.",
     ["histories", "fault_sequences", "configurations"], "histories of up to 30 steps over up to 8 tensors of char, int, float and double with 1-70 dimensions, 3 kinds of allocator, allocations failing once or twice; up to 26 steps over 4 vectors",
     GEN + "no test runs out of memory, moves into a non-empty vector or has more than a few dimensions.",
     [TH, "include/utils/cached_allocator.hpp", "include/utils/buffered_allocator.hpp", "include/utils/vector.hpp"], [("vector", "include/utils/vector.hpp"), ("memory_cache", "include/utils/cached_allocator.hpp"), ("buffered_allocator", "include/utils/buffered_allocator.hpp")], ["elements, shapes and addresses", "sizes of released blocks"],
     [("reserved_memory", "released blocks kept by size", "include/utils/cached_allocator.hpp"), ("cache_", "inline buffer", "include/utils/buffered_allocator.hpp")])

prop("C27", "The description of a model shows every node and operand of the graph once",
     "For every expression, computation_graph describes a directed graph with exactly the nodes the expression consists of and an edge from every operand to its operator, every node labelled with its name, shape and identity and every variable shown as one and as trainable or not; the summary of a model is that description, describing again or describing a copy gives the same text. "
     "Every creation of a variable, place holder, constant, value or operator has an identity of its own, later ones a larger one, which all of its copies keep whatever is bound, assigned or evaluated, and by which place holders and variables compare.",
     ["programs", "histories"], "60 kinds of expressions of 1-30 operators over shared leaves, histories of up to 40 creations, copies, assignments and evaluations",
     "the only tests of the description print it, and none compares identities after copies.",
     [OP, "include/utils/id.hpp", MODEL], [("computation_graph", OP), ("id", "include/utils/id.hpp")], ["text of the description", "identities"])

prop("C30", "Images and data sets read from files and written to them keep every pixel",
     "For every image tensor of shape (width, height, channels), writing it in a lossless format and reading it back gives the same shape and bytes, in a lossy format nearby ones; writing tensors of other element types scales the smallest value to 0 and the largest to 255 linearly. "
     "Resizing gives the shape asked for, treats every channel alone and commutes with mirroring, and keeps constant images and ramps. "
     "The MNIST loaders give every image and label of their files, one-hot. "
     "Files that are missing, damaged, cut short or hold labels out of range are rejected or read as an image, never read out of bounds.",
     ["inputs", "fault_sequences"], "images of up to 60x60 pixels with 1, 3 or 4 channels in png, bmp, tga, hdr and jpeg files, resizing between sizes of up to 16x16, data sets of up to 12 samples, cuts at any byte",
     "the image tests only run by hand with files that are not in the repository; no test reads a data set.",
     ["include/utils/imageio.hpp", "include/dataset.hpp", "include/utils/3rd_party/stb_image_write.h"], [("imread", "include/utils/imageio.hpp"), ("imwrite", "include/utils/imageio.hpp"), ("imresize", "include/utils/imageio.hpp"), ("mnist::load_data", "include/dataset.hpp")], ["pixels", "files", "rejection"])

prop("C31", "Requests that cannot be met stop with a diagnostic instead of giving results",
     "For every tensor function, operator, layer, optimizer and session request: operands whose sizes, shapes, dimensions or axes do not fit each other or the operation, options out of the range they allow (strides, paddings, croppings, rates, channels, batch sizes, repeats), missing files, place holders without data, and NaN reaching an operator that checks for it end the program with an assertion or an exception; they never give a result, read or write out of bounds, or hang. "
     "The nearest requests that fit are carried out.",
     ["inputs", "configurations"], "85 kinds of requests with random sizes and options, 2 of 3 of them not fitting, each in a process of its own, under AddressSanitizer and in the default configuration",
     "no test makes a request that must be rejected.",
     [TT, TH, OP, "include/activation.hpp", "include/layer.hpp", "include/optimizer.hpp", "include/session.hpp"], [("better_assert", "include/utils/better_assert.hpp")], ["how the process ends"])

prop("C32", "Results do not depend on the number of processors",
     "For every expression, operator, activation, loss, tensor function, initializer with a given seed and training run, values, gradients, losses and parameters are bit for bit the same whether loops run on one thread or are split over any number of threads, and no two threads of a loop touch the same element without synchronisation.",
     ["schedules", "programs", "inputs"], "random expressions of up to 25 operators, 120 single operators on up to 3000 elements, networks of up to 6 layers trained for up to 4 batches, each on 1 and two other numbers of processors between 2 and 16, with and without ThreadSanitizer",
     "the tests run on the processors of the machine only and never compare runs.",
     ["include/utils/parallel.hpp", "include/utils/for_each.hpp", TT, OP, "include/optimizer.hpp"], [("parallel", "include/utils/parallel.hpp"), ("for_each", "include/utils/for_each.hpp")], ["values, gradients and parameters on different numbers of processors", "data races"])

prop("C33", "Single precision gives the results of double precision up to rounding",
     "For every expression, operator, activation and loss, options included, on every input, values, shapes and gradients over float tensors differ from those over double tensors by no more than what rounding to single precision explains.",
     ["programs", "inputs"], "random expressions of up to 25 operators built over both types, 110 single operators, activations and losses with random options on tensors of up to 1500 elements",
     "most tests use one type and none compares the two.",
     [OP, "include/activation.hpp", "include/loss.hpp", TT], [("templates over the element type", OP)], ["values, shapes and gradients in both precisions"])

prop("C34", "Random shifts move whole channels, Poisson draws have the means given",
     "In every training run sliding_2d(p) moves each channel of the images by one distance of at most p pixels in each direction, the same for every image of the batch, zeros moving in; the gradient moves back by the same distances. The distances are drawn afresh every run, uniformly from -p to p and independently for both directions, every channel and every operator; within one run all uses of the operator see the same images. Outside training it is the identity. "
     "Every element of poisson's result is a whole number drawn afresh with the operand's element, whole or not, as its mean and variance. Shapes are kept and operands left alone.",
     ["inputs", "histories"], "images of up to 7x7 pixels with 1-4 channels, batches of 1-4 changing from run to run, up to 4 pixels, histories of up to 6 training and predicting runs, 500 runs for the distributions; float and double",
     "one test runs sliding_2d on one image without looking at the result, and poisson is tested for its shape only.",
     [OP, TT], [("sliding_2d", OP), ("detailed_sliding_2d", OP), ("poisson", OP), ("poisson", TT)], ["values, gradients and shapes of every run", "frequencies over many runs"])
