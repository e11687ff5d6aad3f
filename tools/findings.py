"""Writes known_findings.json: the findings below, and the fixes with the messages of their commits."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    ("C17", "tp-np-int", "CTreePyramidSampling with the documented method 'dm' or 'mixture' raises AttributeError (np.int, removed from numpy) "
     "at the first request that expands the tree (tree_pyramid.py, importance_sample_mixture)"),
    ("C31", "mpmc-covariance", "CMixturePMC.adapt sets the covariance of a proposal to the unweighted scatter of all the samples of the iteration around "
     "its mean instead of their weighted covariance (m_pmc.py, adapt, eq. 14.3)"),
    ("C33", "space-digits", "CBenchmark.load_methods writes the limits of the space with 8 digits (np.array2string), so that limits with more digits, "
     "such as 1.00123456789, give samplers of a slightly different space (CBenchmark.py, load_methods)"),
    ("C33", "benchden-yaml", "the shipped benchden/def_benchmark_benchden.yaml cannot be loaded: its types are 'distributions.benchden.X', which is no name "
     "in CBenchmark, and load_benchmark raises ValueError (CBenchmark.py, load_benchmark)"),
    ("C34", "time-limit", "CBenchmark.evaluate_method never counts the time (sampling_time stays 0): an evaluation goes on after max_sampling_time "
     "until it has all its samples (CBenchmark.py, evaluate_method)"),
    ("C34", "ness-twice", "CBenchmark.run with NESS among the metrics writes a header with two NESS columns and rows with one value (CBenchmark.py, run)"),
    ("C34", "wide-ness", "CBenchmark.write_results puts no space before the NESS: one of more than nine characters, as get_NESS gives for chains whose "
     "autocorrelations add up to -1/2, runs into the last metric (CBenchmark.py, write_results)"),
    ("C34", "unknown-metric", "CBenchmark.run with the name of an unknown metric writes a column for it in the header and no value in the rows (CBenchmark.py, run, evaluate_method)"),
]
FIXED = {
    "100e6e2": "C01", "ed42434": "C01", "b060511": "C01", "35e3d93": "C02", "ce77784": "C01", "8697872": "C03", "2c18825": "C03",
    "89449b9": "C05", "66c9b98": "C10", "8ee2aa4": "C10", "3a76eb7": "C07", "3fbf1fe": "C14", "99be104": "C11", "ab20232": "C12",
    "0ac3084": "C16", "09585c2": "C17", "c3bf119": "C20", "b929515": "C17", "465f8fd": "C23", "faa6fb8": "C20", "6f0a855": "C23",
    "684cfcb": "C26", "e87aa8c": "C18", "3c37765": "C32", "36721f1": "C27", "de21cec": "C24", "cc6a3ef": "C27", "3b24a7e": "C24",
    "c67b9e3": "C17", "6c4348b": "C30", "343c436": "C32", "ccd030b": "C17", "a7822fc": "C32", "b2fc640": "C25", "a563857": "C17",
    "1cf822e": "C20", "e6c10a0": "C23", "6d2095f": "C18", "60ad5b5": "C30", "cb8bac1": "C17", "76956b6": "C18", "324c7db": "C36",
    "f0d9a00": "C29", "fa73010": "C23", "bcdb7a5": "C09", "bac0b39": "C25", "c2151ee": "C23", "91bc500": "C29", "fcbfd1d": "C30", "3da0306": "C35", "bd271ec": "C37", "16a7a07": "C36", "f7534a9": "C25",
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "c9c6bb0..HEAD"], capture_output=True, text=True, check=True).stdout
    fixed = []
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        fixed.append({"property": FIXED[h], "commit": h, "what": s.removeprefix("fix: "), "line": "fixed: property=%s %s %s" % (FIXED[h], h, s.removeprefix("fix: "))})
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump({"findings": [{"property": p, "key": k, "what": w} for p, k, w in FINDINGS], "fixed": fixed}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
