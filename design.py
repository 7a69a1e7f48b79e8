#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md: one section per property (from props.py, checks.py and the rules in harness/*.cc), the findings and the planted bugs."""
import json, os, re
from props import P
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
NOTES = {
 "C02": "The reference product is computed in long double; the tolerance grows with the inner dimension.",
 "C03": "Sharing is modelled: every handle belongs to a group, a write through one handle shows in its group and nowhere else.",
 "C05": "Moments of samples are compared within 8 standard errors, so that a false alarm has a probability below 1e-14 per comparison.",
 "C06": "Disks that fill up are simulated with RLIMIT_FSIZE in a child process. inf and nan are outside the domain (iostreams cannot read them back). A default-constructed (empty) tensor does not survive its text form; not demanded.",
 "C07": "The processors a loop is split over are interposed (std::thread::hardware_concurrency is defined by the harness), which makes the schedule part of the case. Thresholds, ranges not starting at zero and ranges ending at the largest index are included.",
 "C08": "Formulas in long double over all magnitudes of the format; gradients near a kink accept any one-sided slope, at kinks only.",
 "C09": "maximum, minimum, atan2, hypot and equal take equal shapes; elementwise_product broadcasts trailing parts; + and - broadcast like numpy. These domains are the ones the assertions and the documentation of the operators state.",
 "C10": "mean-gradient-scale is a known finding: recognised only when every gradient element is exactly the derivative times the documented factor.",
 "C12": "Ties: the gradient of a maximum must go to exactly one maximal element of its block, whichever.",
 "C13": "conv2d 'same' with an even total padding only (the code asserts it); conv2d_transpose with dilation 1, odd kernels for 'same'. Shapes are fixed at construction for conv2d and free for general_conv2d.",
 "C14": "Comparing a training run needs the statistics of that batch only; predictions are compared against running averages kept by the model. A factory used twice shares its running averages by construction; not tested.",
 "C15": "Which elements are dropped is random: the check demands that output/input is 0 or 1/(1-rate) exactly, that the gradient follows the same mask, and that frequencies over at least 12000 draws lie within 8 standard errors.",
 "C17": "Two known findings on gradient scales, recognised by their exact factor.",
 "C21": "The learning rate decay is accepted as compounding or as lr0/(1+decay*iterations); gradient_descent ignores its momentum argument and is tested without. Copies of a compiled model are outside the domain.",
 "C23": "model-call-shares-state is a known finding: it is recognised only for a model with state inside which is applied more than once in one expression.",
 "C25": "One process saves and another restores (fork); a full disk is simulated with RLIMIT_FSIZE.",
 "C27": "Names of composite operators are taken from the expression, not listed in the check.",
 "C28": "malloc and operator new are interposed with an accounting allocator that can fail at a chosen call; self-move and moved-from contents are outside the domain.",
 "C30": "Files are written by this library's writer, by a reference writer in the harness (bmp, tga, hdr) or damaged; alpha blending of bmp pixels and gray read back from bmp/hdr/jpg as three channels are as in stb_image.",
 "C31": "Each request runs in a child process; 'rejected' is SIGABRT or an exception, a signal or an AddressSanitizer report is a crash. tensor::reshape to another size is a resize by design and is no request of this kind.",
 "C33": "The same random choices build the expression twice, over float and over double tensors, so that the two differ in nothing but the type. How much a result may differ is measured: the double expression is evaluated again with its leaves changed by up to 1e-5, and single precision may be off by 5 times that change plus 2e-4 of the largest element; expressions whose results move more than 2% are discarded, and gradients are compared only where no operator has a kink that rounding could cross. Single operators use inputs which are exact in both types and never on a kink.",
 "C34": "The distances are not visible from outside, so the check searches for one distance per channel that explains every pixel of the batch, and demands that the gradient uses the same one; frequencies lie within 8 standard errors. Images have no zeros, so that the distance is unique unless everything moved out of the image.",
 "C32": "The number of processors is interposed as for C07. ThreadSanitizer runs the same cases. The library is not documented to be usable from several threads at once, so only the threads it makes itself are examined.",
}
def families(src):
    t = open(H + "/harness/%s.cc" % src).read()
    return re.findall(r'PBT_FAMILY\( "([^"]+)", (\d+), (\d+), \d+, "((?:[^"\\]|\\.)*)"', t)
out = []
for i in sorted(P):
    p = P[i]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("Explored: %s. Why tests cannot settle it: %s" % (p["text"], p["why"]) + "\n")
    seen = []
    for r in CHECKS[i]["runs"]:
        if r["src"] not in seen: seen.append(r["src"])
    for src in seen:
        v = ", ".join("%s x%g" % (r["variant"], r["scale"]) for r in CHECKS[i]["runs"] if r["src"] == src)
        out.append("`harness/%s.cc` (%s):" % (src, v))
        for name, q, t, text in families(src): out.append("* **%s** (%s cases per unit quick, %s thorough): %s." % (name, q, t, text.rstrip(".")))
        out.append("")
    if i in NOTES: out.append(NOTES[i] + "\n")
out = "\n".join(out)
k = [l.strip() for l in open(H + "/known_findings.txt") if l.startswith(("finding:", "fixed:"))]
f = "\n".join("* " + l[len("finding: "):] for l in k if l.startswith("finding:")) + "\n\nRepaired (%d `fix:` commits, each reported again by its check if undone):\n\n" % sum(l.startswith("fixed:") for l in k) + "\n".join("* " + l[len("fixed: "):] for l in k if l.startswith("fixed:"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
catch = dict(l.strip().split("|", 1) for l in open(H + "/catches.txt") if "|" in l) if os.path.exists(H + "/catches.txt") else {}
for d in ("seeded", "seeded_tcc"):
    for b in sorted(os.listdir(H + "/" + d)) if os.path.isdir(H + "/" + d) else []:
        m = json.load(open("%s/%s/%s/meta.json" % (H, d, b)))
        rows.append("| %s%s | %s | %s | %s |" % (b, " (tcc)" if d == "seeded_tcc" else "", m["property"], m["needs"], catch.get(b, "")))
s = open(H + "/DESIGN.md").read()
for mark, text in (("properties", out), ("findings", f), ("planted", "\n".join(rows))):
    a, b = "<!-- %s -->" % mark, "<!-- end %s -->" % mark
    s = s[:s.index(a) + len(a)] + "\n" + text + "\n" + s[s.index(b):]
open(H + "/DESIGN.md", "w").write(s)
