"""single source of properties.jsonl and MANIFEST.json  (python3 tools/props.py writes both)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state, observe=observe))


VN_NOTE = ("Decides equality of terms extracted from the current source by value numbering with an algebraic normal form "
           "(polynomials over interpreted functions, sums, uninterpreted scattering functions); branches are specialised by constant "
           "propagation or joined by gating. Trusts the analyser, CPython's parser and the written reference formulas; "
           "floating point rounding and array broadcasting are outside. Terms outside the fragment end in an error exit, never in OK.")

prop("P01", "Forward model equals the documented first-order radiative-transfer formulas",
     "For every incidence/exit geometry, scattering function pair, optical depth, albedo, bare-soil fraction and reflectivity, the surface, "
     "volume and first-order interaction contributions equal the documented closed formulas. The bare-soil fraction splits the scene linearly "
     "(attenuated vegetated part plus unattenuated bare part). The total is the sum of the individual contributions.",
     ["inputs", "configurations"],
     "all angles, parameter values, scattering functions, monostatic and bistatic geometry, both symbolic backends, interaction on or off",
     "The tests compare a few stored numerical examples (monostatic, one volume/surface pair); no sample shows equality of the formulas for all "
     "parameter values, bistatic exit angles, or bare-soil fractions other than 0.",
     ["rt1/rt1.py"],
     [("contribution methods", "rt1/rt1.py: RT1.calc, surface, volume, interaction, _calc_interaction_expansion"),
      ("angle properties", "rt1/rt1.py: RT1.t_0, t_ex, p_0, p_ex, _mu_0, _mu_ex")],
     "value numbering of the contribution methods against reference terms", VN_NOTE)

prop("P02", "Analytic Jacobian entries are the derivatives of the modelled signal",
     "For every supported parameter (optical depth, albedo, hemispherical reflectance, bare-soil fraction, scattering-function parameters), "
     "unit choice and geometry, each entry of the analytic Jacobian equals the partial derivative of surface plus volume contribution, including "
     "the unit conversion. The entries are returned in the order in which the parameters were requested.",
     ["inputs", "configurations"],
     "all parameter values and angles, intensity / sigma_0 and linear / dB, monostatic and bistatic, any order of the requested parameters",
     "Tests fit a few synthetic datasets and look at the result; a wrong derivative only slows or biases convergence, so no finite number of fits "
     "establishes that each entry is the derivative for all inputs.",
     ["rt1/rt1.py"],
     [("jacobian", "rt1/rt1.py: RT1.jacobian, _d_* derivative helpers"),
      ("dummy-parameter derivatives", "rt1/rt1.py: _d_surface_dummy_lambda, _d_volume_dummy_lambda")],
     "value numbering of the Jacobian against the symbolic derivative of the extracted forward terms", VN_NOTE +
     " One recorded finding (optical-depth derivative of the volume exit path).")

prop("P03", "Slope and curvature are exact incidence-angle derivatives",
     "In monostatic geometry the slope and curvature of the surface, volume and total signal equal the first and second derivative of that signal "
     "with respect to the incidence angle, in every combination of intensity/sigma_0 and linear/dB. The angular derivatives of the scattering functions are "
     "taken along the monostatic direction (exit zenith follows incidence zenith, azimuths opposite).",
     ["inputs", "configurations"],
     "all angles, scattering functions and parameters; the 4 unit combinations; surface, volume, total",
     "Tests compare a handful of numerically differentiated samples, mostly in one unit combination.",
     ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py"],
     [("slope/curvature methods", "rt1/rt1.py: surface_slope, volume_slope, tot_slope, surface_curv, volume_curv, tot_curv"),
      ("angular derivative helpers", "rt1/surface.py: Surface.brdf_theta_diff; rt1/volume.py: Volume.p_theta_diff")],
     "value numbering against symbolically differentiated forward terms", VN_NOTE)

prop("P04", "Numeric and symbolic evaluation of a scattering function agree",
     "Every scattering function that has both a closed symbolic form and a direct numeric evaluation yields the same value from both, for all angles and "
     "whether its shape parameters are given as numbers or by name. The generalised scattering angle follows its documented formula in both versions. Evaluation "
     "binds each of the four angles to its own variable and forwards every named parameter.",
     ["inputs", "configurations"],
     "all angles, all parameter values, numeric and named parameters, every scattering class",
     "Tests evaluate single angles; a difference in a rarely used parameter form or in a swapped angle that is symmetric in the sample stays invisible.",
     ["rt1/scatter.py", "rt1/surface.py", "rt1/volume.py"],
     [("numeric twins", "rt1/surface.py, rt1/volume.py: _func and _func_numeric of each class"),
      ("scattering angle", "rt1/scatter.py: Scatter.scat_angle, _scat_angle_numeric"),
      ("entry points", "rt1/surface.py: Surface.brdf; rt1/volume.py: Volume.p")],
     "sibling comparison by value numbering", VN_NOTE)

prop("P05", "Legendre coefficients and linear combinations represent the closed form",
     "The declared Legendre coefficients of every scattering function are the ones implied by its closed form, and the number of declared coefficients of a "
     "polynomial function suffices to represent it exactly. The series runs over all orders up to the declared number in the generalised scattering angle. A linear combination "
     "evaluates to, and expands into, the weighted sum of its components, grouped only where components share the same scattering-angle parametrisation.",
     ["inputs", "programs"],
     "all orders, all parameter values, every scattering class, combinations of equal and different parametrisations",
     "Tests check expansion coefficients of a few functions at sample orders and parameters.",
     ["rt1/surface.py", "rt1/volume.py", "rt1/rt1.py"],
     [("coefficients and series", "rt1/surface.py, rt1/volume.py: legcoefs, ncoefs, legexpansion"),
      ("combination", "rt1/surface.py: LinCombSRF; rt1/volume.py: LinCombV"),
      ("azimuthal integration", "rt1/rt1.py: RT1._cosintegral")],
     "generating-function rewriting of extracted terms + value numbering", VN_NOTE)

prop("P06", "Evaluation geometry binds and validates exactly the fixed angles",
     "For each of the 16 fixed/variable patterns and for the monostatic setting, exactly the angles declared fixed are replaced by their own value, variable angles stay symbolic, "
     "and monostatic evaluation ties exit direction to incidence direction. Every angle declared fixed is checked to be constant, no other angle is, and unknown pattern characters are rejected.",
     ["inputs", "configurations"],
     "all 16 four-letter patterns plus mono and malformed patterns; all angle arrays; expansion and angular derivative of volume and surface",
     "Tests use two or three of the 16 patterns and only constant arrays.",
     ["rt1/surface.py", "rt1/volume.py"],
     [("geometry decoding", "rt1/surface.py: Surface.legexpansion, brdf_theta_diff; rt1/volume.py: Volume.legexpansion, p_theta_diff")],
     "value numbering specialised to every geometry pattern", VN_NOTE)

if __name__ == "__main__":
    import importlib.util
    more = os.path.join(HERE, "tools", "props_more.py")
    if os.path.exists(more):
        exec(compile(open(more).read(), more, "exec"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m py_compile check.py rtsa/*.py checks/*.py",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in P if not p["na"]],
           "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P), "properties,", len(man["checks"]), "claimed")
