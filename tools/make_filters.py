"""Regenerates data/filters.json (the published filter values) from a built pywt; used once, then validated by
tools/validate_filters.py against independent constructions.  Not run by any check."""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import build
sys.path.insert(0, build.ensure()); sys.path.insert(1, "/opt/venv/lib/python3.12/site-packages")
import pywt
out = {}
for n in pywt.wavelist(kind="discrete"):
    w = pywt.Wavelet(n)
    out[n] = dict(dec_lo=w.dec_lo, dec_hi=w.dec_hi, rec_lo=w.rec_lo, rec_hi=w.rec_hi, orthogonal=w.orthogonal,
                  biorthogonal=w.biorthogonal, symmetry=w.symmetry, vanishing_moments_psi=w.vanishing_moments_psi,
                  vanishing_moments_phi=w.vanishing_moments_phi, family_name=w.family_name, short=w.short_family_name)
json.dump(out, open(os.path.join(V, "data/filters.json"), "w"), indent=0)
