#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib
T = {
 "C01": "explicit enumeration of a bounded configuration space; every real solve conformance-checked against an independent reference model",
 "C02": "explicit enumeration of a bounded configuration space; boundary and interface equations evaluated on the real outputs",
 "C03": "explicit enumeration of a bounded configuration space; flux and energy-balance relations evaluated on the real outputs",
 "C04": "explicit enumeration of a bounded configuration space; antiderivatives against quadrature of the real functions",
 "C05": "explicit enumeration of configurations x layer splits; real-code equivalence check",
 "C06": "explicit enumeration of configurations x option/representation changes; real-code equivalence check",
 "C07": "explicit enumeration of configurations x source subsets and scales; real-code equivalence check",
 "C08": "exhaustive enumeration of call histories to a depth bound on the real code",
 "C09": "stateless model checking of the real code: all two-thread schedules to a preemption bound under a controlled scheduler",
 "C10": "explicit enumeration of functions x argument shapes x configurations on the real code",
 "C11": "explicit enumeration of invalid and boundary-valid calls on the real code",
 "C12": "explicit enumeration of a bounded configuration space; corrected intensities conformance-checked against an independent reference model",
 "C13": "explicit enumeration of configurations x direction arguments x flags x call orders on the real code",
 "C14": "explicit enumeration of outputs x configurations; automatic derivatives against independent derivatives of the real functions",
 "C15": "explicit enumeration of configurations x arguments x flags on the real code",
 "C16": "explicit enumeration of helper arguments and equilibrium configurations on the real code",
 "C17": "explicit enumeration of rule sizes x intervals x polynomial degrees on the real code",
 "C18": "explicit enumeration of configurations x symmetry transformations; real-code equivalence check",
 "C19": "explicit enumeration of a bounded configuration space; actinic fluxes conformance-checked against an independent reference model",
 "C20": "exhaustive enumeration of reflectance lists x solve histories on the real code",
 "C21": "explicit enumeration of helper argument sizes and values on the real code",
 "C22": "exhaustive product of extreme layers x bounded deviations of sources, surface, phase function on the real code",
 "C24": "explicit enumeration of configurations x cuts; every slab re-solved on the real code from the real outputs at its faces",
 "C25": "explicit enumeration of configurations x all unit sources; reciprocity relations evaluated on the real outputs",
 "C26": "explicit enumeration of configurations x forward-peak transformations; real-code equivalence check",
 "C28": "explicit enumeration of configurations x single increases; order relations between real executions",
 "C29": "explicit enumeration of sizes x positions of a deviation x zero patterns x direction orders and selections on the real code",
 "C27": "explicit enumeration of configurations x subsets of delicate inputs on the real code",
 "C23": "explicit enumeration of configurations x irrelevant-parameter changes; real-code equivalence check",
}
NOTE = "Every case of the stated finite space is executed on the code in /repo/src (nothing is sampled, no randomness); the verdict says nothing about input values outside the option alphabets, and agreement is judged with the stated floating-point tolerances. "
N = {
 "C01": "Trusts the reference model (multiple shooting with matrix exponentials, independent of the code's eigen-decomposition), which was itself checked against the relations of C02/C03. One listed finding (complex eigenvalues).",
 "C12": "Trusts the reference model's delta-M solution and a direct transcription of the documented TMS and IMS formulas.",
 "C19": "Trusts the reference model.",
 "C09": "Switch points are the package's own statements (thorough: also bytecode instructions); preemptions inside NumPy/SciPy calls are not explored. Two threads.",
 "C08": "Global state observed: NumPy error state, print options, global random state (except in interpolation, where SciPy itself draws from it), warning filters.",
}
P = "/opt/venv/bin/python"
m = dict(version=1, setup_cmd=f"{P} -B -c \"import numpy, scipy, autograd; import sys; sys.path.insert(0, '/verif'); import mc.core; mc.core.impl()\"",
         checks=[dict(property=k, quick_cmd=f"{P} -B mc/run.py {k} quick", thorough_cmd=f"{P} -B mc/run.py {k} thorough", evidence_file=f"evidence/{k}.json",
                      technique="model checking: " + v, level="model_checking", level_note=NOTE + N.get(k, "")) for k, v in T.items()],
         not_applicable=[], notes="No hooks in /repo: the checks use the public interface only (C09 traces the package's source files from outside). Genuine defects found were repaired in 'fix:' commits; see known_findings.txt and DESIGN.md.")
pathlib.Path("/verif/MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
