"""Regenerates known_findings.json from the list below (never run by a check)."""
import json
FIXED = [
 ('C01', '3950bf8', 'LocalTensors.update kept a canonical-form claim over the replaced tensor'),
 ('C16', '3b34ba1', 'slice updates of local tensors accepted wrong counts, bonds and canonicalization strings'),
 ('C01', '503775b', 'leg2vleg/vleg2leg claimed the canonical form of the unfused array'),
 ('C01', '1522542', 'scalar multiples kept a canonical form that no longer held'),
 ('C13', '018e712', '+mpa, group_sites(1) and trivial splits returned the operand itself'),
 ('C05', 'd6c8e14', 'negative axes in sum, axis_iter and diag addressed bond legs'),
 ('C18', '07007c3', 'block_diag and _local_add took the dtype of the first summand and dropped imaginary parts'),
 ('C16', '5367277', 'operands of different length or shape were truncated by zip'),
 ('C14', '4deaecd', 'random_local_ham ignored randstate'),
 ('C17', '0b7ad9c', 'MPArray.load used an h5py accessor that no longer exists'),
 ('C15', 'f47a290', 'MPPovmList.est_lfun and MPPovm.est_pmf_from dropped eps'),
 ('C16', '378e235', 'MPPovmList.pmfs_as_array silently ignored surplus states or MP-POVMs'),
 ('C08', '1d63e4d', 'sparse_cH with a cyclic term failed for square arrays'),
 ('C18', '7190ddb', 'variational compression of single precision arrays failed'),
 ('C16', 'fd2e022', 'variational compression accepted a start array of another shape when it returned early'),
 ('C16', '18095f5', 'dot and partialdot with axes beyond the physical legs contracted bond legs'),
 ('C16', 'a747a5b', 'transpose with negative axes addressed bond legs'),
 ('C16', '99b78dc', 'partialtrace ignored all but the first two legs of an axes tuple'),
 ('C16', 'df4ff65', 'reductions_pmps accepted sites with other than two legs'),
 ('C16', 'bffdf4d', 'MPPovm.embed accepted a negative position and returned a longer chain'),
 ('C16', 'b489a1d', 'localpovm.concat truncated to the shorter of povms and weights'),
 ('C16', '49aa74c', 'special.sumup accepted summands of different shape'),
 ('C22', '76946dd', 'MPPovmList.lfun_from truncated fractional other_weights to integers'),
]
OPEN = [dict(id='KF1', status='open', property='C15',
             case=r'option:est_lfun_weights\[list\]|read:mpnum\.povm\.mppovm\.MPPovmList\.\w*est_lfun\w*\(weights\)', match='weights',
             what='MPPovmList.est_lfun(coeff, funs, samples, weights) ignores the documented argument weights: the estimate is '
                  'computed from unweighted samples (not repaired: an existing test passes eps in the position of weights)')]
out = list(OPEN)
for i, (p, c, what) in enumerate(FIXED):
    out.append(dict(id='F%02d' % (i + 1), status='fixed', property=p, commit=c, what=what,
                    record='fixed: property=%s %s %s' % (p, c, what)))
json.dump(dict(findings=out), open('/verif/known_findings.json', 'w'), indent=1)
