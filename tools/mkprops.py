"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json
S = "src/acetone_nnet/"
L = S + "generator/layers/"
T = S + "templates/layers/"
G = S + "generator/neural_network.py"
P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


prop("A01", "No tensor is overwritten while a later layer still needs it",
     "In every generated program, two tensors that are needed at the same time never live in the same output buffer: "
     "the buffer given to a layer is never one whose content a layer executed later still reads. "
     "The same holds for the constant buffers that keep a tensor with several consumers.",
     ["programs", "configurations"],
     "every finite acyclic layer graph, every execution order that respects dependencies, every fan-in/fan-out (a layer may use one tensor twice)",
     "Tests run a handful of fixed networks; the property quantifies over all graphs and depends on the history of buffer releases.",
     [S + "graph/graph_interpretor.py", G],
     [("liveness index allocation", S + "graph/graph_interpretor.py:assign_liveliness_index"),
      ("constant buffer allocation", S + "graph/graph_interpretor.py:assign_cst")])
prop("A02", "Layers execute after every layer they depend on, each exactly once",
     "For every acyclic network, whatever the order in which its layers are listed, the generated execution order contains every layer exactly once "
     "and places each layer after all layers whose output it reads.",
     ["programs"], "every finite acyclic layer graph and every listing order of its layers",
     "Tests use a few linear or single-branch networks whose listing order is already sorted.",
     [S + "graph/graph_interpretor.py"],
     [("depth-first topological sort", S + "graph/graph_interpretor.py:parcours_prof_topo"),
      ("execution order", S + "graph/graph_interpretor.py:graph_to_acetone")])
prop("A03", "Convolution code computes the convolution, whatever the algorithm",
     "For every supported layer configuration, the C code generated for a 2-D convolution writes into the layer's output exactly the mathematical convolution "
     "(cross-correlation with zero padding, stride and dilation, plus bias, then activation) of its input. "
     "Every selectable convolution algorithm computes that same function.",
     ["inputs", "configurations"],
     "all channel counts, image sizes, filter counts and sizes, strides, dilations, paddings, weights, biases and inputs, each algorithm; arithmetic over the reals",
     "The tests compare two networks of fixed shape on one input; each dimension, stride, padding and algorithm combination is a different loop nest.",
     [L + "convolution", T + "Conv"],
     [("convolution generators", L + "convolution/*.py:generate_inference_code_layer"),
      ("loop nests", T + "Conv/*.tpl")])
prop("A04", "Fully-connected and matrix-product code computes the matrix product",
     "For every size, the C code generated for a dense, general matrix-multiply or matrix-multiply layer writes exactly the mathematical result "
     "(product with the right transpositions, scaling and bias, then activation) into the layer's output.",
     ["inputs", "configurations"],
     "all matrix sizes, transposition flags, scalings, presence and shape of bias, constant on either side, all weights and inputs; arithmetic over the reals",
     "Tests sample two or three fixed sizes per layer.",
     [L + "dense", L + "gemm", L + "matmul", T + "Gemm"],
     [("dense", L + "dense/DenseDefault.py"), ("gemm", L + "gemm/GemmDefault.py"), ("matmul", L + "matmul/MatMulDefault.py")])
prop("A05", "Elementwise, broadcast, bias and normalisation code computes its function",
     "For every shape, the C code generated for element-wise layers (add, subtract, multiply, divide, maximum, minimum, average), bias addition, batch normalisation "
     "and stand-alone activations writes the layer's function, with size-1 dimensions broadcast, applied to every element of its inputs.",
     ["inputs", "configurations"],
     "all shapes and broadcastable shape pairs, constant operands, all inputs; number of operands bounded by 3; arithmetic over the reals",
     "Tests sample one or two fixed shapes per layer, mostly without broadcasting.",
     [L + "broadcast", L + "AddBias.py", L + "batch_normalization", L + "Activation.py"],
     [("broadcast generators", L + "broadcast"), ("batch normalisation", L + "batch_normalization/BatchNormalizationDefault.py")])
prop("A06", "Pooling, reduction and softmax code computes its function",
     "For every shape, the C code generated for pooling, reduction (sum, product, mean, max, min over any axes) and softmax layers writes the mathematical "
     "pooling, reduction or softmax of its input into the layer's output.",
     ["inputs", "configurations"],
     "all shapes, pool sizes, strides, paddings, reduction axes and inputs; arithmetic over the reals",
     "Tests sample one or two fixed shapes per layer and never vary stride, padding and shape together.",
     [L + "pooling", L + "reduce", L + "softmax"],
     [("pooling", L + "pooling"), ("reduction", L + "reduce"), ("softmax", L + "softmax/SoftmaxDefault.py")])
prop("A07", "Data-movement code moves exactly the right elements",
     "For every shape, the C code generated for concatenation, gathering, padding, tiling, transposition, flattening, constant loading and input loading "
     "places in every output element exactly the input element (or pad constant) its definition names.",
     ["inputs", "configurations"],
     "all shapes, axes, permutations, index tables, pad widths and modes, repeat counts and inputs",
     "Tests sample one fixed shape per layer.",
     [L + "concatenate", L + "gather", L + "gather_elements", L + "padding", L + "tile", L + "transpose", L + "flatten", L + "input", L + "constant.py"],
     [("generators", L + "*/…Default.py:generate_inference_code_layer"), ("loop nests", T + "*.tpl")])
prop("A08", "Resize code computes the interpolation it announces",
     "For every input and output size, the C code generated for a nearest, linear or cubic resize writes the interpolation defined by its coordinate "
     "transformation, rounding and coefficient settings into the layer's output.",
     ["inputs", "configurations"],
     "all input and target sizes, coordinate transformations, rounding modes and inputs; arithmetic over the reals",
     "Tests sample one up-scaling factor per mode.",
     [L + "resize", T + "Resize"],
     [("resize generators", L + "resize")])
prop("A09", "Generated code never reads or writes outside its buffers",
     "In every generated program each array access stays inside the declared size of the array, every division has a non-zero divisor "
     "and no scalar is read before it is written.",
     ["inputs", "configurations", "programs"],
     "all layer configurations the other code properties range over, and every network for the declared size of the shared buffers",
     "Tests run fixed networks without sanitizers; an out-of-bounds access needs a particular combination of sizes.",
     [L, T, G],
     [("array declarations", S + "templates/template_header_file.c.tpl"), ("buffer sizes", G)])
prop("A10", "The built-in Python inference computes the layer functions",
     "For every layer and every shape, the framework's own Python inference returns the same mathematical function of its input as the layer's definition, "
     "so that it is a valid reference for the generated C code.",
     ["inputs", "configurations"],
     "all shapes, attributes, weights and inputs of every layer kind with a Python inference; arithmetic over the reals",
     "Tests compare one fixed network per layer kind.",
     [L], [("reference inference", L + "*:forward_path_layer")])
prop("A11", "Padding and output-shape arithmetic agree with the operator definitions",
     "For every input size, window size, stride, dilation and padding mode, the padding amounts computed for a convolution or pooling are those of the operator's "
     "definition, and the output size follows from them without ever reading beyond the padded input.",
     ["inputs", "configurations"], "all positive sizes, strides and dilations, every padding mode",
     "Tests cover same/valid padding of a few square sizes with unit dilation.",
     [S + "ir/layer.py", L + "convolution/Conv2D.py", L + "pooling/Pooling2D.py"],
     [("padding amounts", S + "ir/layer.py:compute_padding")])
prop("A12", "Graph optimisation never changes what the network computes",
     "Applying any selection of the fusion passes to any network leaves the function computed by the network unchanged, and leaves a well-formed graph: "
     "links in both directions agree, identifiers are unique, and bookkeeping of kept tensors follows the identifiers.",
     ["programs", "configurations"], "every acyclic network containing the fused patterns anywhere, with any other layers around and any listing order",
     "Tests fuse the pattern in one fixed linear network; problems need branching, several occurrences or unusual numbering.",
     [S + "pattern_matching"],
     [("pattern application", S + "pattern_matching/PatternMatcher.py"), ("fusion patterns", S + "pattern_matching/patterns")])
prop("A13", "Choosing an implementation changes nothing but the implementation",
     "For every network and every assignment of implementations to layers, each layer becomes an instance of exactly the requested implementation "
     "(the documented default otherwise) with the same parameters, identifier and neighbours; an unknown implementation is refused.",
     ["programs", "configurations"], "every network and every mapping from layers to implementation names",
     "Tests request one implementation for every convolution of one network.",
     [S + "versioning"], [("implementation registry", S + "versioning/layer_factories.py"), ("implementation selection", S + "versioning/versioning.py")])
prop("A14", "Every trained parameter reaches the generated program bit-exactly",
     "For every parameter array, the values in the generated C arrays and in the generated binary parameter file are bit-identical to the network's parameters, "
     "in the order the code reads them and at the offset the program loads them from.",
     ["inputs", "programs"], "every parameter array of every shape and every finite value of the network's data type (including negative zero, subnormals and extremes)",
     "Tests check a network's output within a tolerance, which hides rounding of single parameters and rare values.",
     [L, G, S + "templates/template_parameter_file.c.tpl"],
     [("C parameter arrays", S + "generator/Layer.py:flatten/hex conversion"), ("binary parameter file", G)])
prop("A15", "Fixed-point scaling keeps the value it represents",
     "For every fixed-point format, converting a value to the format and back changes it by at most half a unit in the last place inside the representable range, "
     "and the shift inserted after a matrix product re-expresses the accumulator in the format announced for the result, whenever that format "
     "has no more fractional bits than the accumulator (the others are logged as invalid).",
     ["inputs", "configurations"], "every pair of formats and every representable value",
     "Tests quantize one network in one format.",
     [S + "quantize", L],
     [("formats", S + "quantize/qform.py"), ("shift activation", S + "quantize/activation.py")])
prop("A16", "NNET networks are imported and normalised exactly",
     "For every well-formed NNET file, the imported network has the file's layer sizes, weights and biases and applies the file's input clipping and normalisation "
     "before, and output denormalisation after, the layers.",
     ["inputs", "programs"], "every layer count, layer sizes, parameter and normalisation values",
     "Tests read one fixed file.",
     [S + "importers/NNET_importer"], [("reader", S + "importers/NNET_importer")])
prop("A17", "ONNX operators are imported with the meaning ONNX gives them",
     "For every supported ONNX operator, the imported layer has exactly the attributes, shapes, axes, parameters and neighbours that the operator's ONNX definition gives, "
     "including its default attribute values; anything else is refused with an error.",
     ["inputs", "programs"], "every supported operator with every combination of attribute presence, attribute value, rank and initializer placement",
     "Tests import one node per operator with one attribute setting.",
     [S + "importers/ONNX_importer"], [("node importers", S + "importers/ONNX_importer/create_layer.py")])
prop("A18", "The comparison tool accepts outputs exactly when they agree",
     "Over the lines of the tests it is asked to compare, the output comparison reports success exactly when every line holds the same number of values in both files "
     "(a missing line holds none) and all values agree within the stated tolerance; any missing, extra or differing value, and any value that is not a number, makes it fail.",
     ["inputs"], "every pair of output files, every number of tests, both precisions",
     "Tests feed pairs that are equal or differ in one place.",
     [S + "cli/compare.py"], [("comparison", S + "cli/compare.py")])
prop("A19", "Switching between channels-first and channels-last keeps every element",
     "For every tensor shape, the layout conversions applied at network input, at flattening and at network output are permutations that place every element where its "
     "consumer expects it, so that either data format gives the same results.",
     ["inputs", "configurations"], "all tensor shapes and values, both data formats",
     "Tests run fixed shapes, mostly with one channel.",
     [L + "input", L + "flatten", S + "templates/memory_layout/template_output.c.tpl", S + "ir/tensor.py"],
     [("input conversion", L + "input/InputDefault.py"), ("output conversion", G)])
prop("A20", "Activation functions compute their mathematical definition",
     "For every activation function and every input, both the generated C expression and the Python inference equal the function's mathematical definition, "
     "for whatever local variable or array element it is applied to.",
     ["inputs", "configurations"], "every activation, every parameter value (slopes, bounds), every real input",
     "Tests run each activation on one random tensor.",
     [S + "generator/activation_functions.py"], [("activations", S + "generator/activation_functions.py")])

prop("A21", "PyTorch programs are imported with the meaning of their operations",
     "For every exported PyTorch program, the imported network computes the program's result (batch normalisation and dropout in their inference meaning), with the "
     "same settings, parameters and connections, including settings left to their default values; a program with an operation or a setting that has no layer is refused "
     "with an error.",
     ["inputs", "configurations"], "every supported operation, size, setting and parameter value; every way of combining them in a program",
     "Tests import two fixed programs.",
     [S + "importers/PYTORCH_importer/parse_pytorch.py"], [("visitor", S + "importers/PYTORCH_importer/parse_pytorch.py")])

with open(__import__("os").path.join(__import__("os").path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
