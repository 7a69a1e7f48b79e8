"""Which harness programs decide which property, and how they are built."""
GCC = ["-O1", "-g0", "-pthread"]
VARIANTS = {
    # serial loops, every memory error is a failure
    "asan": {"cxx": "g++", "flags": GCC + ["-fsanitize=address", "-DNOPARALLEL"]},
    # the library's default configuration: loops over more than 8 elements are split over threads
    "par": {"cxx": "g++", "flags": GCC},
    "tsan": {"cxx": "g++", "flags": GCC + ["-fsanitize=thread"]},
    "ubsan": {"cxx": "g++", "flags": GCC + ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined", "-DNOPARALLEL"]},
    # the optimisation flags of the repository's own build
    "fast": {"cxx": "g++", "flags": ["-O1", "-g0", "-pthread", "-ffast-math", "-funsafe-math-optimizations"]},
}


def both(src, share=0.35, base=1.0, **kw):
    """the harness serially with AddressSanitizer, and a share of the cases in the default multi-threaded configuration"""
    return [dict({"src": src, "variant": "asan", "scale": base}, **kw), dict({"src": src, "variant": "par", "scale": base * share, "tscale": base * share}, **kw)]


CHECKS = {
    "C01": {"runs": both("tensor_arith", base=3)},
    "C02": {"runs": both("matmul", base=2)},
    "C03": {"runs": both("tensor_alias", base=3)},
    "C04": {"runs": both("tensor_math", base=5)},
    "C05": {"runs": both("tensor_create", base=2)},
    "C06": {"runs": both("tensor_io", base=2)},
    "C07": {"runs": both("views", base=4) + [{"src": "views", "variant": "tsan", "scale": 1.0}]},
    "C08": {"runs": both("unary", base=4)},
    "C09": {"runs": both("binary", base=2)},
    "C10": {"runs": both("reductions")},
    "C11": {"runs": both("moves", base=2)},
    "C12": {"runs": both("pooling")},
    "C13": {"runs": both("convolution")},
    "C14": {"runs": both("normalization")},
    "C15": {"runs": both("dropout")},
    "C16": {"runs": both("activations", base=4)},
    "C17": {"runs": both("losses")},
    "C18": {"runs": both("graphs")},
    "C19": {"runs": both("histories") + both("resizing")},
    "C20": {"runs": both("shapes")},
    "C21": {"runs": both("optimizers")},
    "C22": {"runs": both("regularizers")},
    "C23": {"runs": both("models")},
    "C24": {"runs": both("layers")},
    "C25": {"runs": both("session")},
    "C26": {"runs": both("complexes")},
    "C27": {"runs": both("graph_dump")},
    "C28": {"runs": both("storage", base=3) + [{"src": "storage", "variant": "ubsan", "scale": 1.0}]},
    "C29": {"runs": [{"src": "lzw", "variant": "asan", "scale": 1.0}]},
    "C30": {"runs": both("images")},
    "C31": {"runs": both("misuse", share=1.0, base=6)},
    "C33": {"runs": [{"src": "precision", "variant": "par", "scale": 4.0}]},
    "C34": {"runs": both("sliding")},
    "C32": {"runs": [{"src": "schedules", "variant": "par", "scale": 4.0}, {"src": "schedules", "variant": "tsan", "scale": 1.0}]},
}
