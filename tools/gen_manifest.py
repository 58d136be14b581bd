"""Regenerates MANIFEST.json."""
import json, os
AI = 'abstract interpretation of the sources over a tensor leg-provenance domain'
T = {
 'C01': (AI + '; isometry facts checked against every reported canonical window', 'every public operation, for operands claiming each kind of window; isometry of QR/SVD factors is the domain\'s axiom'),
 'C02': (AI + ' with QR/SVD factor nodes', 'all windows and requests for chains of up to 5 sites, symbolic dimensions'),
 'C03': (AI, 'chains of 1-4 sites, 1-5 summands, symbolic dimensions and entries'),
 'C04': (AI, 'enumerated leg counts and axes arguments, symbolic dimensions and entries'),
 'C05': (AI, 'enumerated leg counts and axes arguments, symbolic dimensions and entries'),
 'C06': (AI, 'enumerated leg counts, positions and group sizes, symbolic dimensions and entries'),
 'C07': (AI, 'enumerated leg counts; small concrete dimensions where the code branches on them'),
 'C08': (AI, 'enumerated lengths, widths and positions, symbolic dimensions and entries'),
 'C09': (AI, 'enumerated lengths and supports, symbolic dimensions and entries'),
 'C10': (AI + '; oracle branches for data-dependent ranks', 'overlap and norm identities, rank bounds, copy/in-place agreement; not the truncation error'),
 'C11': (AI + '; abstract eigensolver callback', 'each local problem equals the projected operator; not convergence'),
 'C12': (AI, 'small concrete outcome dimensions, arbitrary entries'),
 'C13': ('ownership and alias effect analysis on the abstract interpreter', 'buffer identity, writes and read-only flags of every operation'),
 'C14': ('effect analysis of random sources on the abstract interpreter', 'which source every draw comes from, on all explored paths'),
 'C15': ('effect and forwarding analysis of options on the abstract interpreter, plus parameter liveness on the syntax tree', 'every parameter of every public function'),
 'C16': (AI + ' of ill-fitting operands: a normal return is a violation', 'enumerated misfits with symbolic dimensions'),
 'C17': (AI + ' with an abstract file/group store', 'writer and reader agree on keys, attributes and values'),
 'C18': ('dtype-kind dataflow on the abstract interpreter', 'each mix of real/complex, single/double operands'),
 'C19': (AI + '; rank and shape expressions', 'symbolic ranks'),
 'C20': (AI, 'enumerated numbers of axes, symbolic or small concrete dimensions'),
 'C21': (AI + '; the generator is abstract and every probability vector handed to it is collected', 'symbolic state and POVM tensors, enumerated outcome counts, group sizes and drawn outcomes; not the quality of the generator'),
 'C22': (AI, 'symbolic functions, coefficients, prefactors, probabilities and weights; enumerated samples and element matchings; not statistical unbiasedness'),
}
NA = {
 'N01': 'positivity and completeness of local POVMs are identities between concrete trigonometric numbers for each dimension; no static argument over the source bounds them, evaluating them would be running the code',
 'N02': 'a statistical statement over random samples; the source only fixes the formulas (decided by C22), unbiasedness is a theorem about them that needs a probabilistic proof outside static analysis',
 'N04': 'quantifies over singular values and floating-point eigenvalues at run time; no static bound in reach',
 'N05': 'a transcendental identity between a closed form and an eigenvalue',
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
done = sys.argv[1:] or sorted(T)
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p,
                      thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                      technique=T[p][0], level='other',
                      level_note='Static: sources are parsed and interpreted abstractly, never run. ' + T[p][1][0].upper() + T[p][1][1:] +
                      '. Trusts the models of numpy/scipy/h5py operations in mpsa/npm.py and mpsa/models.py; exact arithmetic.')
                 for p in done],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())] +
         [dict(property=p, reason='check under construction') for p in sorted(T) if p not in done])
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
