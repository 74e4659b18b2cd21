[{"sub": 'dumps', "why": 'a repaired defect: library raised AssertionError:  (in tensor.py:setRoot) on a legal input',
  "case": {'rank0': 0, 'name': ''}},
 {"sub": 'dumps', "why": "a mutant: loaded by fromYAMLfile: name: got '', want 'Z'",
  "case": {'rank0': 0, 'name': 'Z'}},
 {"sub": 'dumps', "why": "a mutant: loaded by fromYAMLfile: name: got '', want 'é'",
  "case": {'rank0': 1, 'name': 'é'}},
 {"sub": 'nests', "why": "a mutant: Tensor.fromUncompressed {'shape': [3]}: shape: got [1], want [3]",
  "case": {'nest': [3], 'default': 0, 'extra': 2, 'fmt': 'C'}},
 {"sub": 'small', "why": 'a mutant: Tensor.fromUncompressed {}: shape: got [1, 0], want [1, 1]',
  "case": {'nest': [[0]], 'default': 0, 'extra': 0, 'fmt': 'C'}},
 {"sub": 'dumps', "why": 'a mutant: loaded by fromYAMLfile: shape: got [0], want [2]',
  "case": {'t': {'ranks': ['N0'], 'shape': [2], 'dims': [2], 'default': 0, 'spec': [], 'name': ''}, 'xs': [], 'fmt': False, 'mut': False}},
 {"sub": 'dumps', "why": 'a mutant: owned fiber by YAML: shape: got None, want 1',
  "case": {'t': {'ranks': ['N0'], 'shape': [1], 'dims': [1], 'default': 0, 'spec': [], 'name': ''}, 'xs': [], 'fmt': False, 'mut': False}},
 {"sub": 'dumps', "why": 'a mutant: loaded by fromYAMLfile: default: got 0, want 3',
  "case": {'t': {'ranks': ['N0'], 'shape': None, 'dims': [1], 'default': 3, 'spec': [], 'name': ''}, 'xs': [], 'fmt': False, 'mut': False}},
 {"sub": 'dumps', "why": 'a mutant: loaded by ctor: shape: got [0], want [7]',
  "case": {'t': {'ranks': ['N0'], 'shape': [7], 'dims': [7], 'default': 0, 'spec': [], 'prov': 'grown', 'name': ''}, 'xs': [], 'fmt': False, 'mut': False}},
 {"sub": 'dumps', "why": 'a mutant: loaded by fromYAMLfile: default: got 0, want 3',
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [10], 'default': 3, 'spec': [[0, 3], [2, 1e-07], [3, 1], [4, -2], [5, 3], [6, 1e+300], [7, 5], [8, 1e-07], [9, 5]], 'name': '#n'}, 'xs': [('/', 3)], 'fmt': True, 'mut': False}}]
