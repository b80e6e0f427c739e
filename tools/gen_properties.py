"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

AN, FE, ME, PM, MS, RP = 'PyNite/Analysis.py', 'PyNite/FEModel3D.py', 'PyNite/Member3D.py', 'PyNite/PhysMember.py', 'PyNite/Mesh.py', 'PyNite/Reporting.py'
ND, SP, QD, PL, LC = 'PyNite/Node3D.py', 'PyNite/Spring3D.py', 'PyNite/Quad3D.py', 'PyNite/Plate3D.py', 'PyNite/LoadCombo.py'

prop('P01', 'Re-analysing a model gives the same answer as a freshly built one',
 'Whatever sequence of edits, analyses of any kind, result queries and failed attempts a model has been through, a completed analysis reports the same displacements, reactions, element activity and internal forces as the same analysis run once on a model newly built with the same definition. Nothing from an earlier definition or an earlier analysis survives into the new results.',
 ['histories', 'fault_sequences'],
 'Every interleaving of model edits (nodes, members, springs, plates, supports, releases, loads, combinations, direct property changes), analyses (general, linear, second-order; any option), queries and interrupted or failing analyses.',
 'The suite analyses a freshly built model once per test; one test analyses a beam twice after a single property change. Stale caches, flags and dictionaries only show after particular multi-step histories.',
 [AN, FE, ME, PM, ND, SP],
 [('node result dictionaries', 'displacements and reactions per load combination', ND), ('member segment cache', 'internal-force segments kept for one load combination at a time', ME), ('activity flags', 'which one-way elements and supports are currently engaged, per combination', AN), ('solution status', 'kind of the last completed analysis', FE)],
 [('model preparation at the start of each analysis', AN + ':_prepare_model'), ('member re-subdivision', PM + ':descritize'), ('segment cache invalidation', ME + ':_solved_combo')],
 ['result dictionaries on nodes', 'member/spring/plate/quad result queries', 'solution status'])

prop('P02', 'A failed or interrupted analysis never passes for a solved model',
 'If an analysis does not run to completion - instability, divergence, solver failure, a failing output stream, lack of memory, or an interrupt arriving at any instant - the call reports it, and the model is not presented as solved with partial, missing or stale results. The model definition is untouched, and once the cause is gone the next analysis succeeds with exactly the results a never-failed model gives.',
 ['crash_points', 'fault_sequences', 'histories'],
 'Every fault kind (interrupt, allocation failure, linear-solver exception, solver returning non-finite numbers, output stream errors, iteration limit, singular structure) at every point of every kind of analysis, alone or repeated, on models never solved, solved, or solved and then edited.',
 'One test checks that an unstable frame raises. No test looks at the model after a failure, none injects a failure inside an analysis, and none retries.',
 [AN, FE],
 [('solution status', 'what the model claims about its last analysis', FE), ('per-combination results', 'written combination by combination while the analysis runs', AN)],
 [('status set last, after reactions', FE + ':analyze'), ('reset at start', AN + ':_prepare_model'), ('error translation around the linear solver', FE + ':analyze')],
 ['exception from the analysis call', 'solution status', 'result dictionaries', 'later analysis results'])

prop('P03', 'Load combinations are solved independently of one another',
 'The results of a load combination depend only on the structure and on that combination: they are the same whichever other combinations exist, in whatever order they were added or solved, whichever of them were selected by tag, and whatever one-way elements or supports did in the others. A tag-limited analysis yields results for exactly the selected combinations.',
 ['schedules', 'histories', 'configurations'],
 'Every set, order and tagging of combinations over every model, including models whose one-way supports and one-way members engage differently in different combinations, under every analysis kind.',
 'Tests use one combination at a time or read only the governing one; no test solves the same combination in different company.',
 [AN, FE, ND, SP, PM, LC],
 [('one-way support engagement', 'active flag of a directional spring support', ND), ('element activity', 'per-combination active flag of springs and members', AN)],
 [('combination loop', FE + ':analyze'), ('tag selection', AN + ':_identify_combos'), ('engagement update', AN + ':_check_TC_convergence')],
 ['node displacements and reactions per combination', 'member and spring forces per combination'])

prop('P04', 'Asking for results never changes any result',
 'On an analysed model, the answer to any result query is the same no matter which queries were made before it, for which combinations, in what order, how often, and even if an earlier query was rejected or interrupted part-way. Queries, statics checks and renderable summaries leave the model definition, the solution status and the outcome of the next analysis unchanged.',
 ['schedules', 'histories', 'crash_points'],
 'Every sequence of point, extreme-value, array and element queries over members, springs, plates, quads and meshes, across combinations, with invalid queries and interrupts at any instant mixed in.',
 'Tests ask each model for a handful of values in one fixed order, nearly always for a single combination.',
 [ME, PM, QD, PL, MS, FE],
 [('segment cache', 'lazily rebuilt for the combination being queried', ME), ('element local coordinates', 'stored on first use', QD)],
 [('cache keyed by combination', ME + ':_solved_combo / _segment_member'), ('delegation to sub-members', PM)],
 ['return values of the query methods', 'solution status', 'model definition'])

prop('P05', 'A rejected edit changes nothing',
 'When an edit is refused - a name already taken, an unknown node, element, material or section, an invalid direction or degree of freedom - the model definition, its results and its solved status are exactly what they were before the call.',
 ['histories', 'fault_sequences'],
 'Every editing call with every kind of invalid argument, at any point of any history, on solved and unsolved models.',
 'No test makes an invalid edit and inspects the model afterwards.',
 [FE, MS],
 [('entity dictionaries', 'nodes, members, springs, plates, quads, meshes, combinations', FE), ('solution status', 'solved or not', FE)],
 [('argument validation before mutation', FE + ':add_* / def_* / delete_*')],
 ['exception from the call', 'entity dictionaries', 'results and solution status'])

prop('P06', 'A model never claims to be solved for a definition it was not analysed for',
 'After any accepted edit that could alter the outcome of an analysis, the model no longer reports itself as solved until an analysis has completed on the new definition. Whenever a model reports itself as solved, the results it holds are those of its present definition.',
 ['histories'],
 'Every accepted editing call (additions, deletions, supports, releases, loads, combinations, merging, meshes) at any point of any history after any kind of analysis.',
 'No test reads the solved status; none edits a solved model except by assigning a member property directly.',
 [FE, AN, MS],
 [('solution status', 'kind of the last completed analysis or none', FE)],
 [('status cleared by each editing call', FE), ('status set on completion', FE + ':analyze*')],
 ['solution status', 'result dictionaries'])

prop('P07', 'Additions and deletions keep the model closed and free of ghosts',
 'At every point of every history the model contains exactly the entities the accepted edits imply: every element refers only to nodes that are in the model under their own names, deleting a node or auxiliary node takes with it everything documented to go, deleting loads removes all of them, and a name that is reused starts clean. Automatically chosen names never collide with existing ones.',
 ['histories'],
 'Every sequence of additions, deletions, re-additions (named and auto-named) of nodes, auxiliary nodes, springs, members, plates, quads, loads and supports, interleaved with analyses.',
 'No test deletes anything or reuses a name.',
 [FE, ND, PM],
 [('entity dictionaries', 'name to entity', FE), ('element end references', 'node objects held by elements', ME)],
 [('cascading deletion', FE + ':delete_node / delete_auxnode / delete_loads'), ('automatic naming', FE + ':add_* / unique_name')],
 ['entity dictionaries', 'element end nodes', 'loads and supports on entities', 'orphaned-node report'])

prop('P08', 'Merging coincident nodes and renaming preserve the structure',
 'Merging coincident nodes yields the structure in which the coincident nodes were one node from the start: all elements, supports, spring supports, imposed displacements and nodal loads are kept. Renaming loses nothing and changes no result; only names differ, and every entity stays reachable under exactly one name.',
 ['histories', 'inputs'],
 'Every model with any pattern of coincident nodes and any naming, with merges and renames at any point of the history, before and after meshing and analysis, repeated or combined.',
 'Merging is exercised on one meshed tank whose duplicate nodes carry no loads; renaming is not tested at all.',
 [FE, MS],
 [('entity dictionaries', 'name to entity', FE), ('mesh node and element dictionaries', 'members of a mesh', MS)],
 [('node replacement and condition union', FE + ':merge_duplicate_nodes'), ('key and name rewriting', FE + ':rename')],
 ['entity dictionaries', 'analysis results before and after'])

prop('P09', 'One-way elements and supports end in an admissible, balanced state',
 'When an analysis with tension-only or compression-only elements or one-way supports completes, every engaged one carries force only in its permitted sense, disengaged elements report no force, one-way supports are engaged exactly when displaced in their resisting direction, and the displacements are those of the structure made of the engaged parts. If no such state is reached within the allowed number of iterations, the analysis says so instead of returning.',
 ['inputs', 'histories', 'configurations'],
 'Every arrangement of one-way members, springs and supports, every load combination, iteration limit and prior history, including repeated engagement changes.',
 'Three small tests cover single configurations solved once.',
 [AN, FE, SP, PM],
 [('activity flags', 'engaged or not, per combination', AN)],
 [('iteration with stiffness rebuild', FE + ':analyze, ' + AN + ':_PDelta_step'), ('engagement rule', AN + ':_check_TC_convergence'), ('iteration limit', FE + ':analyze')],
 ['element activity', 'axial forces', 'support displacements and reactions', 'exception on divergence'])

prop('P10', 'Reported reactions balance everything applied to the structure',
 'After every completed first-order analysis, for each analysed combination, the reported reactions (rigid and spring supports) are in force and moment equilibrium with all the factored loads the user has applied, whatever history, member subdivision, releases, one-way behaviour or solver was involved. Unsupported freedoms report no reaction.',
 ['histories', 'configurations', 'fault_sequences'],
 'Every stable model and combination at every completed first-order analysis in any history, including after failed attempts and with loads on members crossed by other nodes.',
 'A few tests compare one or two reaction components with textbook values; the built-in statics check only prints.',
 [AN, FE, PM, ME, SP],
 [('reaction dictionaries', 'per node and combination', ND), ('load split over sub-members', 'applied loads redistributed when nodes lie along a member', PM)],
 [('reaction recovery', AN + ':_calc_reactions'), ('load subdivision', PM + ':descritize'), ('statics summary', AN + ':_check_statics')],
 ['node reactions', 'applied loads as entered'])

prop('P11', 'Solver and diagnostic options never change the answer',
 'The same model analysed with the sparse or the dense solver, with or without progress output, stability checking and statics checking, or - when it has no one-way parts - with the general or the linear procedure, gives the same results and the same success or failure. An option that only reports does not alter the model.',
 ['configurations', 'histories', 'fault_sequences'],
 'Every combination of analysis options over every model, analysis kind and prior history, including switching options between successive analyses and failing attempts under one option followed by another.',
 'Nearly all tests use the default options; the dense solver is barely used and never for second-order analysis.',
 [FE, AN],
 [('global matrices', 'assembled separately for the sparse and dense paths', FE)],
 [('twin sparse and dense assembly', FE + ':K / Kg'), ('twin solve paths', FE + ':analyze*, ' + AN + ':_PDelta_step')],
 ['results of the analysis', 'exceptions', 'model definition'])

prop('P12', 'The answer does not depend on the order or names used to enter a model',
 'Any order of the editing calls that leads to the same structure, and any choice of unique names for its parts, gives the same results up to numerical round-off.',
 ['schedules', 'histories'],
 'Every dependency-respecting reordering of every editing history and every consistent renaming, for all element types, loads, supports and combinations.',
 'Each test enters its model in one order with one set of names.',
 [FE, AN, PM, MS],
 [('internal numbering', 'assigned from dictionary order at analysis time', AN)],
 [('renumbering', AN + ':_renumber'), ('partitioning by freedom', AN + ':_partition_D')],
 ['results keyed by physical location'])

prop('P13', 'Independent models never influence each other, whatever threads use them',
 'Models that share no objects behave as if each were alone: any interleaving of calls on different models from different threads, at any instant and with failures or interrupts in some of them, gives each model exactly the results it gets when used alone.',
 ['schedules', 'fault_sequences'],
 'Every preemption pattern of two or more callers, each building, analysing, querying and editing its own model (with equal names and default arguments), with faults injected into any of them.',
 'Tests run one model at a time in one thread.',
 [FE, AN, ME, MS, SP, RP],
 [('module- and class-level state', 'default argument objects, class attributes, templates', 'PyNite/*.py')],
 [('all state held on the model instance', FE + ':__init__')],
 ['results of every model'])

prop('P14', 'Generating meshes never damages the rest of the model',
 'Generating any set of meshes, in any order, explicitly or as part of an analysis, adds their nodes and elements under unused names and never replaces, moves or detaches anything already in the model; every mesh element ends up attached to nodes that are in the model. A mesh that was never generated explicitly is generated by the analysis, generating is not affected by other meshes or by reuse of the caller\'s argument objects, and the caller\'s arguments are not modified.',
 ['schedules', 'histories', 'inputs'],
 'Every sequence of adding and generating rectangular, annular, conical and cylindrical meshes and ordinary nodes and elements, with default or clashing starting names, shared argument objects, openings and merges.',
 'Each meshing test creates one mesh in a model that is empty except for it.',
 [MS, FE, AN],
 [('mesh generated flag', 'whether the mesh is in the model', MS), ('mesh start names', 'chosen when the mesh is added, used when it is generated', FE)],
 [('duplicate renaming', MS + ':_rename_duplicates'), ('automatic generation', AN + ':_prepare_model'), ('integrity check', MS + ':check_mesh_integrity')],
 ['entity dictionaries before and after', 'element end nodes', 'caller arguments'])

prop('P15', 'The same history gives the same results in every process',
 'Replaying the same calls on the same inputs in another process, with a different hash seed, gives the same names, ordering, results and errors. No result depends on object identity, hash order, time or earlier work done in the process.',
 ['histories', 'configurations'],
 'Every history of edits, meshing, merging, analyses and queries, replayed in fresh interpreters under different hash seeds and after unrelated work in the same process.',
 'Tests run once under a fixed hash seed.',
 [FE, AN, ME, MS, PM],
 [('dictionary and set iteration order', 'used for numbering and discontinuity lists', ME)],
 [('insertion-ordered dictionaries', FE), ('sorted discontinuities', ME + ':_segment_member')],
 ['full observation stream of the history'])

prop('P16', 'Reports show the current results and fail loudly without touching the model',
 'A report generated from an analysed model shows the results that the model would give if queried at that moment, after any history of edits and re-analyses. If the renderer or the file system fails, or the report is interrupted, the error reaches the caller, no report is claimed to have been produced, and model, results and later reports are unaffected; switching sections off removes just those sections.',
 ['histories', 'crash_points', 'fault_sequences'],
 'Every section selection, every model, every history of re-analysis between reports, and every renderer or stream failure or interrupt at any point of report generation.',
 'No test imports the reporting module.',
 [RP, 'PyNite/Report_Template.html'],
 [('shared template and environment', 'module-level template used for all reports', RP)],
 [('template rendering from live model', RP + ':create_report'), ('PDF conversion', RP + ':create_report')],
 ['document handed to the renderer', 'exception from the call', 'model state'])

prop('P17', 'A member crossed by other nodes still answers as one member',
 'Adding or removing nodes that merely lie along a member, at any point of a history, does not change the response of the structure: end displacements, reactions and internal forces along the member stay those of the undivided member. Point, extreme-value and array queries of the same quantity agree with one another on divided and undivided members alike, for every analysed combination (after a second-order analysis, an extreme is at least as extreme as any point of the member).',
 ['histories', 'inputs'],
 'Every member, loading (point, uniform, trapezoidal, partial, local or global), release and position and number of intermediate nodes, with nodes appearing and disappearing between analyses.',
 'Tests with internal nodes check single values for uniform loads; array queries are tested only on undivided members.',
 [PM, ME],
 [('sub-members', 'rebuilt at each analysis from nodes found along the member', PM), ('member-level segment cache', 'used by array queries', ME)],
 [('subdivision and load splitting', PM + ':descritize'), ('delegation by location', PM + ':find_member')],
 ['member result queries', 'node displacements and reactions'])

prop('P18', 'The answer does not depend on position, compass direction, units or end order',
 'Whatever history a model has been through, the same history entered for the same structure standing elsewhere, turned by quarter turns about the vertical axis, measured in other units, or with members and springs entered from their other end and plates and quads from their opposite corner, succeeds or fails alike and gives the same displacements, reactions, internal forces, extremes and plate results, turned, rescaled and re-signed accordingly.',
 ['histories', 'inputs'],
 'Every structure, history of edits and analyses, translation, quarter turn, pair of realistic units and choice of member ends; no test compares two descriptions of one structure.',
 'Each test enters one structure in one position, one system of units and one end order.',
 [FE, ME, PM, QD, PL, MS],
 [('absolute tolerances and rounding', 'node positions along members, segment boundaries, mesh courses, zero tests in stability and geometric stiffness', ME)],
 [('local axes', ME + ':T, ' + PL + ':T, ' + QD + ':T'), ('segmentation', ME + ':_segment_member'), ('mesh generators', MS + ':generate')],
 ['node displacements and reactions', 'member and plate result queries', 'success or failure of the analysis'])

prop('P19', 'First-order results superpose',
 'After any history, the first-order results of every load combination on a structure without one-way parts are the sum of the results of its load cases, each times its factor, on top of the response to imposed displacements alone: displacements, reactions, member forces, moments, torques and deflections at every point, plate and quad forces and stresses. Negative, zero, fractional and large factors are nothing special, nor is the kind of load a case consists of.',
 ['histories', 'inputs'],
 'Every combination of factors and cases, redefined any number of times between analyses, and every kind of load; tests use a single combination with one or two factors.',
 'No test compares a combination with its cases.',
 [FE, AN, ME, PM, QD, PL],
 [('per-combination results and segments', 'segments are rebuilt per combination', ME)],
 [('fixed-end reactions per combination', ME + ':_fer_unc'), ('load vectors', FE + ':P, FER'), ('segment loads', ME + ':_segment_member'), ('pressures', QD + ':fer, ' + PL + ':fer')],
 ['every first-order result query'])

# --- properties this technique does not decide here -------------------------------------------
prop('P20', 'Frame element stiffness and fixed-end forces match elastic beam theory',
 'For any prismatic member, orientation, release pattern and load, the element stiffness and equivalent end forces are those of elastic beam theory.',
 ['inputs'], 'All section properties, orientations, releases and loads.',
 'Textbook examples sample a few inputs.', [ME, 'PyNite/FixedEndReactions.py'], [], [('element formulation', ME + ':k / fer')], ['element matrices'])
prop('P21', 'Plate and quad elements converge to plate theory',
 'With mesh refinement, displacements, moments, shears and membrane stresses of plates and quads converge to the exact solution for any shape, thickness and load.',
 ['inputs'], 'All geometries, thicknesses and pressures.', 'Benchmarks cover a few cases.', [QD, PL], [], [('element formulation', QD + ', ' + PL)], ['plate results'])
prop('P22', 'Internal force and deflection diagrams satisfy the beam equations pointwise',
 'Between loads, shear, moment, slope and deflection along a member are successive integrals of the applied load with the right end values.',
 ['inputs'], 'All members and loads at all locations.', 'Tests check a few points.', [ME, 'PyNite/BeamSegZ.py', 'PyNite/BeamSegY.py'], [], [('segment integration', 'PyNite/BeamSegZ.py')], ['member diagrams'])
prop('P23', 'Generated meshes have the requested geometry',
 'Every generated mesh covers exactly the requested shape at the requested position with elements no larger than asked for.',
 ['inputs'], 'All mesh parameters.', 'A few meshes are solved.', [MS], [], [('mesh generators', MS + ':generate')], ['mesh nodes and elements'])
prop('P24', 'Drawings show the model as it is, whatever was drawn before',
 'A drawing prepared from a model (by the pyvista renderer, the VTK renderer, or the function that opens a window at once) shows exactly what the model contains at that moment, after any history of edits, analyses and earlier drawings with the same renderer: every node, spring, member, plate and quad at its place (with its name if labels are on), the supports of every node, every load of the chosen load combination or load case at its place, in its direction and with its factored magnitude, and, where asked for and analysed, the deformed shape at the chosen scale and the contours that queries of the chosen combination give; and nothing else. Preparing a drawing changes neither the definition nor the results nor the solved status of the model. A failing, refused or interrupted drawing is reported to the caller and leaves model and later drawings unaffected.',
 ['histories', 'crash_points', 'fault_sequences', 'inputs'],
 'Every model, every sequence of drawings with changing settings between edits and analyses, and every interrupt, failed allocation or failed graphics call at any point of the drawing.',
 'No test imports the drawing modules.',
 ['PyNite/Rendering.py', 'PyNite/Visualization.py'],
 [('renderer', 'scene and settings kept from one drawing to the next', 'PyNite/Rendering.py:Renderer'), ('node contours', 'scratch values kept on the nodes', 'PyNite/Rendering.py:_PrepContour')],
 [('scene construction (pyvista)', 'PyNite/Rendering.py:Renderer.update'), ('scene construction (VTK)', 'PyNite/Visualization.py:Renderer.update'), ('scene construction (window)', 'PyNite/Visualization.py:render_model'), ('load scaling', 'PyNite/Visualization.py:_MaxLoads')],
 ['contents of the scene handed to the window', 'exception from the call', 'model state'])
prop('P25', 'Plastic pushover analysis follows the yield surface',
 'In step-by-step plastic analysis the end forces of every member stay on or inside the section yield surface and plastic deformation never unloads negatively.',
 ['inputs', 'histories'], 'All sections, load paths and step sizes.', 'Its test is disabled.', [AN, FE, 'PyNite/Section.py'], [], [('plastic step', AN + ':_pushover_step')], ['member end forces per step'])
prop('P26', 'A saved, restored or copied model carries on, and on its own',
 'At any point of any history a model can be saved with pickle and restored, in the same or in another process, or copied with copy.deepcopy. The restored or copied model has the same definition, the same solved status and the same results, answers every query alike, and every later edit, analysis and query has the outcome it would have had on the original. From then on the two are independent: nothing done to one, including failed or interrupted analyses, is noticed by the other. Saving and copying, whether they succeed or fail (a full disk), leave the original as it was.',
 ['histories', 'crash_points', 'fault_sequences', 'inputs'],
 'Every model in every state a history can leave it in (unsolved, solved, failed, interrupted, with meshes not yet generated, partly queried), every continuation of the copies and of the original.',
 'No test saves or copies a model.',
 [FE, ME, 'PyNite/PhysMember.py', MS],
 [('references back to the model', 'members, plates, quads and meshes hold the model they belong to', FE), ('segments and sub-members', 'results built on demand and kept', ME)],
 [('model', FE + ':FEModel3D')],
 ['definition, status and results of copy and original', 'outcome of later calls on either'])

prop('P27', 'Everything a solved model tells about the same thing agrees',
 'After any history, in every combination just analysed: the displacement vector of the model, the displacements of its nodes and of the ends of its members, springs, plates and quads are the same; local and global end forces of an element are the same forces; at every node, after a first-order analysis, the end forces of the elements meeting there add up to the loads applied at the node plus its reactions, panels included; the internal forces of a member at its ends are its end forces; the extremes of a mesh, in one combination or over all, are the extremes of its elements at corners and centres; the curves a member plots are the values it answers with, for the combination asked for.',
 ['histories', 'fault_sequences', 'inputs'],
 'Every structure and every history of edits, deletions (which renumber nodes), analyses, failed attempts and queries in any combination order; the same quantity is stored or derived in several places that a change can update separately.',
 'Tests look up single numbers in freshly analysed models and compare none of the views with each other.',
 [FE, ME, MS, 'PyNite/Plate3D.py', 'PyNite/Quad3D.py', 'PyNite/Spring3D.py', 'PyNite/Analysis.py'],
 [('displacements and reactions', 'stored in nodes and in the model\'s vector after an analysis', 'PyNite/Analysis.py'), ('segments and sub-members', 'built on demand from the end forces', ME), ('mesh extremes', 'scan of element results', MS)],
 [('model', FE + ':FEModel3D')],
 ['displacements, end forces, reactions', 'mesh extremes', 'plotted curves'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
