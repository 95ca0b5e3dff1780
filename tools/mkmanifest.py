#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
QUAD = "property-based testing against an independent quadrature reference"
NOTE = {
 "C01": (QUAD, "generated shells/potentials/geometries, every element against direct quadrature of the definition; bounded by L<=10 and by the calibrated accuracy of the radial recursions"),
 "C02": (QUAD, "generated cases up to L_A+L_B+2l<=13..23; tolerance classes calibrated to the accuracy of the library's adaptive radial quadrature"),
 "C03": (QUAD, "as C02, three components; l from 1 to 10"),
 "C04": (QUAD, "generated lists of outercore spinors against quadrature of the non-local operator"),
 "C05": ("stateful property-based testing (construction histories against the sum of parts and the quadrature reference)", "generated add/set sequences; every matrix against the model's sum"),
 "C06": (QUAD, "derivatives of the reference functions; all coincidence patterns of point, A, B, C"),
 "C07": (QUAD, "extended-precision Gauss-Hermite reference"),
 "C08": (QUAD, "extended-precision Gauss-Hermite reference"),
 "C09": (QUAD + " plus differential testing of entry points", "all nuclear models, own electrostatic potentials"),
 "C10": ("property-based testing against own numerical electrostatics, plus dense sweeps", "densities, potentials, radii and estimates of all models"),
 "C11": ("metamorphic property-based testing (bra/ket exchange)", "all operators and gradients"),
 "C12": ("metamorphic property-based testing (rigid motions)", "all operators and gradients, random rotations, reflections and translations"),
 "C13": ("metamorphic property-based testing (linearity)", "splitting, permuting, scaling of contractions and expansions"),
 "C14": ("metamorphic property-based testing (orderings)", "random permutations by user generators and built-in orderings"),
 "C15": ("stateful property-based testing (call histories against fresh evaluation, bitwise)", "call sequences with perturbed heap and init/finalize cycles"),
 "C16": ("property-based testing with write-protected inputs and guarded outputs", "all routines, objects in read-only memory"),
 "C17": ("property-based testing of generated concurrent call mixes against serial results, plus race detector", "threads x operations x shared objects; the scheduler is the operating system's, so schedules are sampled"),
 "C18": ("structured fuzzing under address/undefined-behaviour sanitizers with leak accounting", "all routines up to the documented limits"),
 "C19": ("differential property-based testing of the Fortran and C interfaces", "all Fortran entry points, bitwise"),
 "C20": ("model-based stateful property-based testing of object histories", "shells, potentials and pseudopotential objects"),
 "C21": ("differential property-based testing of the driver programs with generated input files", "both drivers against direct library calls, several thread counts"),
 "C24": ("property-based testing of the comparison program against its definition", "generated pairs of matrix files"),
 "C22": ("metamorphic property-based testing (identities between operators)", "generated shells, potentials, geometries"),
 "C23": ("metamorphic property-based testing over tolerance settings", "settings x operators x set/reset sequences"),
}
built = sys.argv[1].split(",") if len(sys.argv) > 1 else list(NOTE)
m = dict(version=1, setup_cmd="bash tools/build.sh build/setup plain asan tsan drivers", checks=[], not_applicable=[])
for k, (t, n) in NOTE.items():
    if k in built:
        m["checks"].append(dict(property=k, quick_cmd="VERIF_TIER=quick ./check " + k, thorough_cmd="VERIF_TIER=thorough ./check " + k,
                                evidence_file="evidence/%s.json" % k, technique=t, level="exploration", level_note=n))
    else:
        m["not_applicable"].append(dict(property=k, reason="its check is not built yet"))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
