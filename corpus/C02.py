[{"sub": 'construct', "why": 'a repaired defect: adopt (source tensor): fiber at depth 1 is owned by K',
  "case": {'how': 'adopt', 'a': {'ranks': ['M', 'K'], 'shape': None, 'dims': [2, 1], 'default': 0, 'spec': [[0, []]]}, 'b': {'ranks': ['M', 'K'], 'shape': None, 'dims': [1, 1], 'default': 0, 'spec': []}, 'seed': 0, 'dens': 0.3}},
 {"sub": 'history', "why": 'a planted bug: after step 4 tempwrite: rank K (1) lists 1 fibers, tree has 0 at depth 1 (1 stale, 0 missing)',
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [1, 1], 'default': 0, 'spec': [], 'prov': 'grown'}, 'route': 'tensor', 'ops': [('ref', (1,), 'none', 0), ('ref', (1,), 'none', 0), ('ref', (5,), 'none', 0), ('imulf', (), []), ('tempwrite', (0,), (0,), 0, 'write')]}},
 {"sub": 'transform', "why": "a mutant: result of ('uniform', 0, 1, False, 0, 0, 'depth'): rank K (2) lists 1 fibers, tree has 1 at depth 2 (1 stale, 1 missing)",
  "case": {'t': {'ranks': ['M', 'K'], 'shape': None, 'dims': [1, 1], 'default': 0, 'spec': [[0, [[0, 1]]]]}, 'x': ('uniform', 0, 1, False, 0, 0, 'depth'), 'post': []}}]
