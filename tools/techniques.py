"""Technique and note of the checks beyond the tensor-heap ones."""
T['C06'] = ('TLA+ specification of contraction orders and costs (ContractSeq): TLC proves its laws on closed families of networks, and '
            'the searches of the real library on random networks are validated against the minimum computed in the specification',
            'Model laws exhaustive for up to 4 nodes; the library is sampled over seeded random networks of up to 6 (7) nodes.')
T['C07'] = ('TLA+ state machine of FiniteTensorNetwork (Ftn over CtlNet): closed model checked by TLC and its behaviours replayed on the '
            'real class; random histories recorded from the real class validated by TLC',
            'Exhaustive over MCFtn to the stated depth, sampled over longer histories; exact integer entries.')
T['C21'] = ('TLA+ definition of every template as the drawing it names (Templates), laws checked by TLC; real template contractions '
            'recorded with random inputs and validated by TLC against the drawing',
            'All templates and directions; inputs sampled; exact integer entries.')
SPLITNOTE = ('Eckart-Young is an axiom, cross-checked by TLC on small matrices; inputs carry exact integer singular-vector certificates that '
             'TLC verifies against the data; sampled with a seed; fixed-point comparison to 0.005.')
T['C08'] = ('TLA+ specification of bond-limited splittings (Split) and of the tensor heap (CtlNet): recorded merges on random linked pairs with '
            'bystanders validated by TLC, including the best approximation computed in the specification', SPLITNOTE)
T['C13'] = ('TLA+ specification of splittings (Split) with integer singular-value certificates: recorded SVD, tensor SVD, Schmidt, projector '
            'and isometry results validated by TLC', SPLITNOTE)
T['C11'] = ('TLA+ definition of the Ising partition function as a sum over configurations (Ising), laws checked by TLC on closed families of '
            'graphs; every graph of the model and random graphs, lattices and site tensors of the real library validated by TLC',
            'Whole-number weights by choosing couplings in units of ln2/2; graphs up to 4 sites exhaustive, larger ones and lattices sampled.')
T['C20'] = ('TLA+ state machine of name sets (NameSet) with a nondeterministic choice of fresh names: closed model checked by TLC, its '
            'behaviours replayed on the real sets, and recorded random histories (with forced collisions) validated by TLC',
            'Exhaustive to depth 3 (4) over two sets with three names left; sampled over longer histories, all module-wide sets.')
T['C19'] = ('TLA+ grammar of network texts with its meaning (TextNet) and state machine of graph objects (Graphs): laws checked by TLC, '
            'every text and history of the closed models replayed on the real code, and recorded random texts, malformed texts and graph '
            'histories validated by TLC',
            'Texts exhaustive up to 2-3 tensors over a few ways to write a leg, graph histories exhaustive to depth 3 (4); sampled beyond.')
T['C12'] = ('TLA+ specification of the deduction of a tensor from its arguments (Construct): laws checked by TLC over every combination of a few '
            'shapes, labels, data and legs, all of them replayed on the real classes, and recorded random combinations validated by TLC',
            'All combinations of the closed model; sampled beyond (rank up to 4, default labels up to 28 legs); exact integer entries.')
T['C09'] = ('TLA+ specification of matrix product states moving over a heap of tensors (Mps): closed model checked by TLC, its behaviours '
            'replayed on the real FreeBoundaryMPS, and random histories of moves, swaps, merges and copies recorded from the real class validated '
            'by TLC (represented tensor, canonical form with certificates, bond limits, records)',
            'Exact integer tensors; whole-number comparison after scaling; truncating swaps only held to the bond limit. Known findings listed.')
T['C10'] = ('TLA+ definition of what an MPS stands for and of contracting networks of them (Mps over CtlNet): recorded constructions and '
            'contractions of real MPS networks validated by TLC against the contraction of the tensors they stand for',
            'Sampled networks of up to 4-5 tensors with chi large enough to be exact. Known finding listed.')
T['C14'] = ('TLA+ definition of open lattice partition functions and of the corner bookkeeping (Lattice): laws checked by TLC over a closed '
            'family, its call histories replayed on the real CTMRG, and recorded random calls validated by TLC against the exact sum',
            'Symmetric integer tensors; sizes up to 7 x 7; sizes where bonds had to be cut are only held to history independence.')
T['C15'] = ('TLA+ definition of twisted and rectangular torus partition functions and of impurity moments (Lattice): laws checked by TLC over a '
            'closed family; recorded runs of the real SquareTRG, HOTRG and ImpurityTensorNetwork validated by TLC against the exact sums',
            'Non-negative integer tensors, up to 3 steps, compared while nothing had to be cut. Known findings listed.')
T['C22'] = ('TLA+ definitions of every documented helper function (Helpers): laws checked by TLC over all short lists, counts and shapes, all of them '
            'replayed on the real functions, and recorded random calls validated by TLC',
            'Exhaustive over short lists and small shapes, sampled beyond; tolerances are tried away from their boundary.')
T['C23'] = ('TLA+ state machine of the array library in use (Backend over CtlNet): closed model checked by TLC, its histories and those of MCNet performed '
            'on the real code with a stand-in library, and recorded random programs, networks, splittings, builders and helper calls under it validated by TLC',
            'No GPU library is installed: the other library is numpy with arrays that refuse to be mixed with numpy arrays. Histories of the closed '
            'model to depth 5 (6), sampled when many; everything else sampled.')
LEGS = (' A second state machine (Legs) covers the same operations on tensors with repeated leg names, addressed by position.')
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C16', 'C17', 'C18'):
    T[p] = (T[p][0], T[p][1] + LEGS)
