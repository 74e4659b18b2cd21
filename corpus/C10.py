[{"sub": 'fibers', "why": "a repaired defect: fiber nonEmpty None {}: the result shares [('payload box at (0,)', 'payload box at (0,)')] with operand 0",
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [5], 'default': 0, 'spec': [[0, 1]], 'fmt': ['C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'k': 'nonEmpty', 'own': False, 'at': [], 'muts': []}},
 {"sub": 'fibers', "why": "a repaired defect: library raised TypeError: unsupported operand type(s) for +: 'NoneType' and 'int' (in fiber.py:__add__) on a legal input",
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [1, 3, 3], 'default': 0, 'spec': [], 'fmt': ['C', 'C', 'C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'k': '+f', 'own': False, 'at': [], 'muts': [], 'u': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [1, 3, 3], 'default': 0, 'spec': [[0, [[0, [[0, 0], [2, -2]]]]]], 'fmt': ['C', 'C', 'C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'ownb': False, 'self': False}},
 {"sub": 'tensors', "why": 'a planted bug: (\'listids\', 0, \'tuple\', \'flatten\', \'tuple\'): operand 0 changed: ("[[\'M\', \'K\', \'N\'], \'N\']", \'+flattened\', \'red\', False, (',
  "case": {'t': {'ranks': ['M', 'K', 'N'], 'shape': None, 'dims': [1, 1, 1], 'default': 0, 'spec': [], 'prov': 'grown', 'fmt': ['C', 'C', 'C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'x': ('listids', 0, 'tuple', 'flatten', 'tuple'), 'muts': [], 'pre': None}},
 {"sub": 'tensors', "why": 'a mutant: (\'reroot\',): operand 0 changed: ("[\'M\']", \'\', \'red\', False, (\'F\', 0, 0, (), ((0, 0), ("\'Unknown\'", None, True, \'C\', 0), ',
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'fmt': ['C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'x': ('reroot',), 'muts': [], 'pre': None}},
 {"sub": 'tensors', "why": 'a mutant: (\'reroot\',): operand 0 changed: ("[\'M.1\', \'M.0\']", \'+split\', \'red\', True, (\'F\', 1, 1, ((2, (\'F\', 1, 1, ((3, (\'v\', \'Paylo',
  "case": {'t': {'ranks': ['M'], 'shape': [4], 'dims': [4], 'default': 0, 'spec': [[3, 3]], 'fmt': ['C'], 'mut': True, 'color': 'red', 'active': None, 'name': ''}, 'x': ('reroot',), 'muts': [], 'pre': 'split'}},
 {"sub": 'tensors', "why": 'a mutant: (\'adopt\',): operand 0 changed: ("[\'M\']", \'\', \'red\', False, (\'F\', 0, 0, (), ((0, 0), ("\'Unknown\'", None, True, \'C\', 0), T',
  "case": {'t': {'ranks': ['M'], 'shape': None, 'dims': [1], 'default': 0, 'spec': [], 'prov': 'grown', 'fmt': ['C'], 'mut': False, 'color': 'red', 'active': None, 'name': ''}, 'x': ('adopt',), 'muts': [], 'pre': None}}]
