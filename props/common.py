REAL = ['PyNite/FEModel3D.py', 'PyNite/Analysis.py', 'PyNite/Member3D.py', 'PyNite/PhysMember.py', 'PyNite/BeamSegY.py',
        'PyNite/BeamSegZ.py', 'PyNite/Spring3D.py', 'PyNite/Node3D.py', 'PyNite/Plate3D.py', 'PyNite/Quad3D.py', 'PyNite/Mesh.py',
        'PyNite/FixedEndReactions.py', 'PyNite/LoadCombo.py', 'PyNite/Material.py', 'PyNite/Section.py', 'numpy', 'scipy']
