"""Reference cells of the Gauss localizations."""
# reference cells of the manual of MEDCoupling / MED file: (type, coordinates of the nodes)
REFS = [
    ("SEG2", "SEG2A",
     [-1, 1]),
    ("SEG2", "SEG2B",
     [0, 1]),
    ("SEG3", "SEG3",
     [-1, 1, 0]),
    ("SEG4", "SEG4",
     [-1, 1, -0.3333333333333333, 0.3333333333333333]),
    ("TRI3", "TRIA3A",
     [-1, 1, -1, -1, 1, -1]),
    ("TRI3", "TRIA3B",
     [0, 0, 1, 0, 0, 1]),
    ("TRI6", "TRIA6A",
     [-1, 1, -1, -1, 1, -1, -1, 0, 0, -1, 0, 0]),
    ("TRI6", "TRIA6B",
     [0, 0, 1, 0, 0, 1, 0.5, 0, 0.5, 0.5, 0, 0.5]),
    ("TRI7", "TRIA7A",
     [0, 0, 1, 0, 0, 1, 0.5, 0, 0.5, 0.5, 0, 0.5, 0.3333333333333333, 0.3333333333333333]),
    ("QUAD4", "QUAD4A",
     [-1, 1, -1, -1, 1, -1, 1, 1]),
    ("QUAD4", "QUAD4B",
     [-1, -1, 1, -1, 1, 1, -1, 1]),
    ("QUAD8", "QUAD8A",
     [-1, 1, -1, -1, 1, -1, 1, 1, -1, 0, 0, -1, 1, 0, 0, 1]),
    ("QUAD8", "QUAD8B",
     [-1, -1, 1, -1, 1, 1, -1, 1, 0, -1, 1, 0, 0, 1, -1, 0]),
    ("QUAD9", "QUAD9A",
     [-1, -1, 1, -1, 1, 1, -1, 1, 0, -1, 1, 0, 0, 1, -1, 0, 0, 0]),
    ("TETRA4", "TETRA4A",
     [0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0]),
    ("TETRA4", "TETRA4B",
     [0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0]),
    ("TETRA10", "TETRA10A",
     [0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0.5, 0.5, 0, 0, 0.5, 0, 0.5, 0, 0.5, 0.5, 0, 0.5, 0, 0.5, 0.5, 0,
      0]),
    ("TETRA10", "TETRA10B",
     [0, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0.5, 0, 0, 0, 0.5, 0, 0.5, 0.5, 0.5, 0.5, 0, 0.5, 0, 0, 0.5, 0,
      0.5]),
    ("PYRA5", "PYRA5A",
     [1, 0, 0, 0, 1, 0, -1, 0, 0, 0, -1, 0, 0, 0, 1]),
    ("PYRA5", "PYRA5B",
     [1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 1]),
    ("PYRA13", "PYRA13A",
     [1, 0, 0, 0, 1, 0, -1, 0, 0, 0, -1, 0, 0, 0, 1, 0.5, 0.5, 0, -0.5, 0.5, 0, -0.5, -0.5, 0, 0.5, -0.5, 0,
      0.5, 0, 0.5, 0, 0.5, 0.5, -0.5, 0, 0.5, 0, -0.5, 0.5]),
    ("PYRA13", "PYRA13B",
     [1, 0, 0, 0, -1, 0, -1, 0, 0, 0, 1, 0, 0, 0, 1, 0.5, -0.5, 0, -0.5, -0.5, 0, -0.5, 0.5, 0, 0.5, 0.5, 0,
      0.5, 0, 0.5, 0, -0.5, 0.5, -0.5, 0, 0.5, 0, 0.5, 0.5]),
    ("PENTA6", "PENTA6A",
     [-1, 1, 0, -1, -0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0]),
    ("PENTA6", "PENTA6B",
     [-1, 1, 0, -1, 0, 0, -1, -0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1]),
    ("PENTA15", "PENTA15A",
     [-1, 1, 0, -1, -0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, -1, 0.5, 0.5, -1, 0, 0.5, -1, 0.5, 0, 0, 1, 0,
      0, 0, 1, 0, 0, 0, 1, 0.5, 0.5, 1, 0, 0.5, 1, 0.5, 0]),
    ("PENTA15", "PENTA15B",
     [-1, 1, 0, -1, 0, 0, -1, -0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, -1, 0.5, 0, -1, 0, 0.5, -1, 0.5, 0.5, 1, 0.5,
      0, 1, 0, 0.5, 1, 0.5, 0.5, 0, 1, 0, 0, 0, 0, 0, 0, 1]),
    ("PENTA18", "PENTA18A",
     [-1, 1, 0, -1, -0, 1, -1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 0, -1, 0.5, 0.5, -1, 0, 0.5, -1, 0.5, 0, 0, 1, 0,
      0, 0, 1, 0, 0, 0, 1, 0.5, 0.5, 1, 0, 0.5, 1, 0.5, 0, 0, 0.5, 0.5, 0, 0, 0.5, 0, 0.5, 0]),
    ("PENTA18", "PENTA18B",
     [-1, 1, 0, -1, 0, 0, -1, -0, 1, 1, 1, 0, 1, 0, 0, 1, 0, 1, -1, 0.5, 0, -1, 0, 0.5, -1, 0.5, 0.5, 1, 0.5,
      0, 1, 0, 0.5, 1, 0.5, 0.5, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0.5, 0, 0, 0, 0.5, 0, 0.5, 0.5]),
    ("HEXA8", "HEXA8A",
     [-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -1, 1, 1]),
    ("HEXA8", "HEXA8B",
     [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1]),
    ("HEXA20", "HEXA20A",
     [-1, -1, -1, 1, -1, -1, 1, 1, -1, -1, 1, -1, -1, -1, 1, 1, -1, 1, 1, 1, 1, -1, 1, 1, 0, -1, -1, 1, 0, -1,
      0, 1, -1, -1, 0, -1, -1, -1, 0, 1, -1, 0, 1, 1, 0, -1, 1, 0, 0, -1, 1, 1, 0, 1, 0, 1, 1, -1, 0, 1]),
    ("HEXA20", "HEXA20B",
     [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1, -1, 0, -1, 0, 1, -1,
      1, 0, -1, 0, -1, -1, -1, 0, 1, 0, 1, 1, 1, 0, 1, 0, -1, 1, -1, -1, 0, -1, 1, 0, 1, 1, 0, 1, -1, 0]),
    ("HEXA27", "HEXA27A",
     [-1, -1, -1, -1, 1, -1, 1, 1, -1, 1, -1, -1, -1, -1, 1, -1, 1, 1, 1, 1, 1, 1, -1, 1, -1, 0, -1, 0, 1, -1,
      1, 0, -1, 0, -1, -1, -1, 0, 1, 0, 1, 1, 1, 0, 1, 0, -1, 1, -1, -1, 0, -1, 1, 0, 1, 1, 0, 1, -1, 0, 0, 0,
      -1, -1, 0, 0, 0, 1, 0, 1, 0, 0, 0, -1, 0, 0, 0, 1, 0, 0, 0]),
    ("QUAD4", "QUAD4C",
     [-1, -1, -1, 1, 1, 1, 1, -1]),
]
# degenerated cells: (type, name, number of nodes which count, coordinates)
DEGS = [
    ("QUAD4", "QUAD4DEG", 2, [-1, 0, 1, 0, 0, 0, 0, 0]),
    ("PENTA6", "PENTA6DEGA", 3, [-1, 1, 0, -1, -1, 0, 1, -1, 0] + [0] * 9),
    ("PENTA6", "PENTA6DEGB", 3, [0, 0, 0, 1, 0, 0, 0, 1, 0] + [0] * 9),
    ("HEXA8", "HEXA8DEGA", 4, [-1, 1, 0, -1, -1, 0, 1, -1, 0, 1, 1, 0] + [0] * 12),
    ("HEXA8", "HEXA8DEGB", 4, [-1, -1, 0, 1, -1, 0, 1, 1, 0, -1, 1, 0] + [0] * 12),
    ("HEXA8", "HEXA8DEGC", 4, [-1, -1, 0, -1, 1, 0, 1, 1, 0, 1, -1, 0] + [0] * 12),
]
