"""Writes /verif/MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REASONS = {}
TECH = {
    "C01": "property-based testing: random events, charts and conversion paths against the textbook embedding (mpmath) with metamorphic round trips",
    "C02": "property-based testing: random events and velocities against the Jacobian of the embedding, round trips and linearity",
    "C03": "property-based testing: random unit choices per component, metamorphic equality of SI values",
    "C04": "property-based testing: random metrics/velocities against the mass-shell invariant and an exact root oracle",
    "M01": "property-based testing: differential against a 50+ digit textbook metric and its block inverse",
    "M02": "property-based testing: differential against high-precision differences of the textbook metric",
    "M03": "property-based testing: differential against -Gamma u u and stationarity invariants",
    "M04": "property-based testing: random units (metamorphic) and formula oracles",
    "M05": "property-based testing: root conditions of the reported surfaces and limits",
    "M06": "property-based testing: differential against potential/curl oracle, metamorphic in the charge",
    "M07": "property-based testing: generated metric functions and perturbations, differential",
    "G01": "property-based testing: mass-shell invariant and exact root for random metrics",
    "G02": "grammar-based generation of expression programs, differential against mpmath automatic differentiation",
    "G03": "property-based testing: convergence rate against an independent DOP853 reference solution",
    "G04": "property-based testing: symplectic-form invariant, reversibility and symmetry relations over generated histories",
    "G05": "property-based testing: metamorphic/differential relations between configurations",
    "G06": "property-based testing: recomputed warning predicate over the history",
    "G07": "property-based testing: differential against textbook inverse metric and SI classes",
    "I01": "property-based testing: random linear and nonlinear systems against closed-form solutions, observed order of convergence, step and bound invariants",
    "S01": "property-based testing: generated metrics, inverse relation and round trips evaluated at random points with 30 digits",
    "S02": "property-based testing: generated metrics against Christoffel symbols from independently differentiated components",
    "S03": "property-based testing: generated metrics against an independent 30-digit curvature oracle, Bianchi and symmetry identities",
    "S04": "property-based testing: generated metrics against an independent curvature oracle, trace and contraction identities",
    "S05": "property-based testing: generated metrics against an independent curvature oracle, field equation and contracted Bianchi identity",
    "S06": "property-based testing: generated metrics against an independent curvature oracle, conformal invariance and trace identities",
    "S07": "property-based testing: generated tensors and configuration paths (histories) against explicit index sums",
    "S08": "property-based testing: generated pairs of tensors against explicit index sums",
    "S09": "property-based testing: generated matrices and tensors against explicit index sums, inverse and scalar invariance",
    "S10": "property-based testing and fuzzing of constructors: generated nested component arrays and malformed inputs against a reference model",
    "S11": "property-based testing: field equations of each predefined metric at generated events and parameters (30-digit curvature oracle)",
    "S12": "property-based testing: predefined metrics against published line elements, metamorphic relations between parameters, model of the search",
    "O01": "property-based testing: closed forms and numerical derivative over generated times, eras and parameters",
    "O02": "property-based testing: generated shadows against independent root finding and high-order quadrature, metamorphic scaling",
    "O03": "property-based testing: generated masses and radii against the isometry condition, model of the sampled curves",
    "O04": "model-based testing of generated families of bodies, with in-place changes in between",
    "O05": "differential testing of three configurations of the accelerator on generated arguments",
    "H01": "model-based testing of histories: generated call sequences with shared objects against the same calls alone in forked processes, arguments and earlier results compared afterwards",
    "P01": "model-based testing of generated histories of plotter calls, artists compared with the trajectory and the surfaces",
    "P02": "property-based testing: artists compared with generated data, reference escape-time image",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        f = os.path.join(ROOT, "checks", p + ".py")
        if not os.path.exists(f):
            na.append(dict(property=p, reason=REASONS.get(p, "check not built yet")))
            continue
        doc = open(f).read().split('"""')[1].strip().split("\n")
        checks.append(dict(
            property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
            technique=TECH.get(p, "property-based testing (generated inputs against an explicit oracle)"), level="exploration",
            level_note="generated-input search with shrinking; quick is a fixed seeded sample, thorough the same search with 20x or more cases; absence of a violation is evidence over the explored cases only"))
    json.dump(dict(version=1, setup_cmd="python3 -c \"print('nothing to build: checks import /repo/src directly')\"",
                   checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
