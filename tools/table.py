PROOF = 'Every contracted function is proved for all inputs by discharging all obligations generated from its compiled code on this run; '
prop('L01', 'A list behaves as a finite sequence under every editing operation',
     'A list is a finite sequence of entries. Adding, checked adding, inserting (at a position or before an entry), removing (by value, by position, or by value from a sorted list), replacing (by value or position), concatenating, copying, compressing and sorting change that sequence exactly as their names say, leave every other entry and the relative order untouched, and never write outside the list; counting, containment, location, indexed access and search answer for the current sequence. This holds whatever removals left gaps in the storage before.',
     ['inputs', 'histories'], 'every list reachable by any history of operations (any length, any pattern of removed slots) and every argument within the documented range',
     'unit tests never touch the list module directly; gap patterns, storage growth boundaries and duplicates are unbounded',
     ['src/util/List.c', 'include/List.h'], [('packed count, growth exponent and removal record', 'List.c pvtList_Get_Pars/pvtList_Set_Pars'), ('gap-aware indexing', 'List.c List_Entry, List_Inserti, List_Remi, List_Replacei'), ('gap compaction', 'List.c List_Compress')],
     claim={'note': PROOF + 'sorting and binary search are proved relative to the C library\'s qsort and bsearch; removal from a sorted list (List_RemSorted) is checked by bounded execution of the contract only. Assumes allocation succeeds, sizes below 2^25, mathematical integers.'})
prop('I01', 'Iterating a list while it is edited visits every remaining entry once',
     'Stepping through a list with the iteration call returns, at each step, the first entry after the previously returned one that is still in the list at that moment, and the end marker exactly when there is none. Removing or replacing any entries (including the current one) and appending entries (singly or by concatenating another list) between steps therefore never makes a remaining entry be skipped or returned twice.',
     ['histories'], 'every list and every interleaving of iteration steps with removals, replacements and appends',
     'tests iterate over a handful of lists without editing them; the interleavings are unbounded',
     ['src/util/List.c'], [('iteration index over raw slots', 'List.c List_Next_Entry'), ('removal blanks the slot instead of shifting', 'List.c List_Rem, List_Remi'), ('append keeps raw positions', 'List.c List_Add, List_Cat')],
     claim={'note': PROOF + 'the iteration contract is stated over the number of live entries before a raw position, which every editing contract preserves. Assumes allocation succeeds and mathematical integers.'})
prop('E01', 'Every entity attribute is stored and read back independently of the others',
     'For every mesh entity (vertex, edge, face, region), setting its ID, global ID, geometric classification (dimension and entity ID), parallel type, boundary flag, master processor, representation type, volatile flag, deleted flag or a marker, over the full documented range of that field, makes the corresponding query return exactly that value and changes no other field of the entity; a deleted entity reports the deleted dimension and its original dimension stays recoverable. Renumbering an entity that already had an ID makes its mesh stop relying on ID order.',
     ['inputs', 'histories'], 'every entity in any state of its packed record and every value within each field\'s range',
     'the fields share packed words; a width, shift or mask error shows only for particular values of a neighbouring field',
     ['src/base/MEntity.c', 'include/MEntity.h', 'src/base/MVertex.c', 'src/base/MEdge.c', 'src/base/MFace.c', 'src/base/MRegion.c'],
     [('packed bit fields', 'MEntity.c MEnt_Set_* / MEnt_*'), ('typed wrappers', 'MVertex.c, MEdge.c, MFace.c, MRegion.c'), ('ID order flag', 'MEntity.c MEnt_Set_ID, Mesh.c MESH_Flag_EntLists_As_Unsorted')],
     claim={'note': PROOF + 'bit-vector semantics for the packed words. Values outside a field\'s range are not covered; markers 1..32.'})

FULL = 'every mesh in the full representation (F1) reached through the public calls'
prop('V01', 'Vertices and edges know each other, and what is computed from that is complete',
     'In a full-representation mesh an edge\'s end vertices are the ones it was given, and a vertex\'s edges are exactly the existing edges with that vertex as an end, each listed once: after creating edges (either end set first), after ME_Replace_Vertex moves an end from one vertex to another, after deleting an edge (for good or keeping it) and after restoring it. Neighbour vertices, counts, IDs, the opposite vertex, membership queries, the common edge of two vertices and the sameness of two edges follow from that relation; the faces and regions of a vertex and of an edge are exactly the faces that use it (through their edges) and the regions on either side of those faces, each once, with counts and IDs agreeing.',
     ['inputs', 'histories'], FULL + ': any number of vertices, edges, faces and regions in any order of creation, end replacement, deletion and restoration',
     'tests look at a few stored meshes; the relation has two redundant sides that must agree after every edit history',
     ['src/base/MVertex_F1.c', 'src/base/MEdge_F1.c', 'src/base/MV_Edge_Funcs_F1F4.c', 'src/base/MEdge.c', 'src/base/MVertex.c'],
     [('edge ends and reverse lists', 'MEdge.c ME_Set_Vertex, ME_Replace_Vertex'), ('vertex edge list', 'MVertex_F1.c MV_Add_Edge_F1, MV_Rem_Edge_F1'), ('upward adjacency', 'MVertex_F1.c MV_Faces_F1, MV_Regions_F1; MEdge_F1.c ME_Faces_F1, ME_Regions_F1')],
     claim={'note': PROOF + 'the functions under contract are listed in the evidence; MV_Regions is proved in the thorough tier; the counts MV_Num_Faces, MV_Num_Regions and ME_Num_Regions, and the composition over whole meshes and histories, are executed on random meshes (bounded).'})
prop('F01', 'A face\'s boundary is an oriented loop of edges and every traversal of it agrees',
     'In a full-representation mesh a face holds exactly the edges it was built from (given with directions, or made or reused between consecutive vertices when built from vertices), in order, with their directions; an edge\'s faces are exactly the existing faces having it on the boundary. The edges and the vertices of a face, forward or backward, from the first position or from a given start vertex, are the loop in that direction from that place, edge directions and counts and IDs and coordinates agree, membership of an edge or vertex is answered correctly, the element type is triangle, quad or polygon by the number of edges, the common face of some edges (or of the vertices of a face in order) is found exactly when there is one, and in a surface mesh the neighbour faces are those across its edges. Deleting a face (for good or keeping it) and restoring it keeps all of this true.',
     ['inputs', 'histories'], FULL + '; faces of 3 to 31 edges, every start vertex and direction, edges pointing either way',
     'start vertex, direction and edge orientation combine; tests use few faces, mostly in default orientation',
     ['src/base/MFace_F1.c', 'src/base/MF_Edge_Funcs_F1F3.c', 'src/base/MFace.c', 'src/base/MEdge_F1.c'],
     [('edge list and direction bits', 'MF_Edge_Funcs_F1F3.c MF_Set_Edges_F1F3, MF_EdgeDir_F1F3'), ('traversals', 'MF_Edge_Funcs_F1F3.c MF_Edges_F1F3, MF_Vertices_F1F3'), ('common face', 'MFace.c MVs_CommonFace, MEs_CommonFace')],
     claim={'note': PROOF + 'faces of at most 64 edges (the width of the direction word); whole-mesh composition is additionally executed on random meshes (bounded).'})
prop('F02', 'Editing the boundary of a face keeps edges, directions and reverse links in step',
     'Reversing an edge\'s direction in a face flips that position only. Removing an edge from a face drops that position, keeps the order and the directions of all others, and the edge no longer lists the face. Replacing consecutive edges of a face (named by the edges, in either order, or by position, also across the start of the list) by a chain of new edges between the same end vertices (also given in either order) gives the loop with that chain in place of the old one: every edge keeps or gets the direction in which the loop runs, edges taken out no longer list the face, edges put in do.',
     ['inputs', 'histories'], FULL + '; faces of up to 31 edges, up to all but one consecutive edges replaced by any number of others, any edge orientation',
     'the packed direction word has to be shifted together with the list; wrap-around and growth or shrinkage combinations are not in the tests',
     ['src/base/MF_Edge_Funcs_F1F3.c', 'src/base/MFace.c'],
     [('replace', 'MF_Edge_Funcs_F1F3.c MF_Replace_Edges_F1F3, MF_Replace_Edges_i_F1F3'), ('remove', 'MF_Edge_Funcs_F1F3.c MF_Rem_Edge_F1F3'), ('reverse', 'MF_Edge_Funcs_F1F3.c MF_Rev_EdgeDir_F1F3')],
     claim={'note': PROOF + 'edge replacement is checked by bounded execution of its contract only.'})
prop('R01', 'Regions and faces agree on sides and directions through every edit',
     'In a full-representation mesh a region holds exactly the faces and directions it was given, in order, and a face has that region on the side its direction says (side 0 if the face points out of the region, side 1 otherwise) and no other. This stays true when a face is removed from a region, its direction is reversed (which swaps the sides for the region beyond it too) or set, one or several faces are replaced by others (fewer, as many or more), and when the region is deleted (for good or keeping it) or restored. Face directions by position or by face, side queries by region or ID, neighbouring regions across faces, membership, counts and IDs follow from that relation, and the element type follows from the number and size of its faces.',
     ['inputs', 'histories'], FULL + '; regions with any number of faces and any sequence of edits',
     'directions are packed bits, one word per 32 faces, and each face holds the reverse link; tests edit almost no regions',
     ['src/base/MR_Face_Funcs_FNR3R4.c', 'src/base/MRegion_F1.c', 'src/base/MF_Region_Funcs_F1F3.c', 'src/base/MRegion.c'],
     [('face list and direction words', 'MR_Face_Funcs_FNR3R4.c MR_Set_Faces_FNR3R4'), ('edits', 'MR_Face_Funcs_FNR3R4.c MR_Replace_Faces_FNR3R4, MR_Rem_Face_FNR3R4, MR_Rev_FaceDir_FNR3R4'), ('face sides', 'MFace_F1.c / MF_Region_Funcs MF_Add_Region_F1F3, MF_Rem_Region_F1F3')],
     claim={'note': PROOF + 'whole-mesh composition and edit histories, and MR_Replace_Faces, are executed on random regions (bounded).'})
prop('R02', 'A region lists its vertices in the standard order of its element type, each once',
     'In a full-representation mesh, the vertices of a region are exactly the vertices of its faces, each once, and its edges the edges of its faces, each once, with counts, IDs, coordinates and membership agreeing. For a tetrahedron, pyramid, prism or hexahedron the vertices come in the standard order: those of one face seen from inside, then the apex or the opposite vertices each joined by an edge to its counterpart. Building a region from vertices in standard order, or from vertices with face templates, gives exactly the faces of that element, reuses faces and edges that exist, and directs each face consistently, and the element type is the right one.',
     ['inputs', 'histories'], FULL + '; every numbering, turning and orientation of the faces of an element and every mix of neighbouring elements',
     'an element\'s faces can come in any order, orientation and start vertex (tens of thousands of combinations per hexahedron)',
     ['src/base/MR_Vertex_Funcs_FNR3R4.c', 'src/base/MR_Edge_Funcs_FN.c', 'src/base/MRegion_F1.c', 'src/base/MRegion.c'],
     [('standard order', 'MR_Vertex_Funcs_FNR3R4.c MR_Vertices_FNR3R4'), ('templates', 'MRegion_F1.c MR_Set_Vertices_F1'), ('edges', 'MR_Edge_Funcs_FN.c MR_Edges_FN')],
     claim={'level': 'exploration', 'note': 'Bounded: the contract of vertex order and of the element templates is executed on every turning, numbering and orientation of the faces of an element and on random mixed meshes; not proved.'})

prop('M01', 'A mesh holds exactly the entities created and not deleted, in order, numbered',
     'For vertices, edges, faces and regions alike, a full-representation mesh holds exactly the entities created in it (or restored) and not deleted: the count equals the number of them, indexing and stepping return each of them once, in order of creation or restoration as long as ID search has not been enabled, and nothing beyond the last. A new entity gets an ID no other entity of its kind has or had, larger than every ID in use; deleting one entity (for good or keeping it for restoration) removes just that one and leaves the order and IDs of the others alone; a deleted and kept entity reports the deleted dimension but its original kind and ID, and restoring puts it back at the end under its old ID.',
     ['inputs', 'histories'], FULL + ': any number of entities of each kind, any order of creation, deletion, discarding and restoration',
     'counts, list and maximum IDs are kept separately and must agree after every history; tests build a mesh once and rarely delete from it',
     ['src/base/Mesh.c', 'src/base/MVertex.c', 'src/base/MEdge.c', 'src/base/MFace.c', 'src/base/MRegion.c', 'src/base/MEntity.c'],
     [('entity lists, counters and maximum IDs', 'Mesh.c MESH_Add_*, MESH_Rem_*, MESH_Num_*, MESH_Next_*'), ('creation, deletion and restoration', 'MV_New/MV_Delete/MV_Restore and their edge, face, region counterparts')],
     claim={'note': PROOF + 'creation, registration, removal, deletion and restoration are under contract, each caller against its callees\' contracts. Assumes allocation succeeds, the four entity lists are distinct objects, sizes below 2^25, and takes the release of attribute data at deletion as an assumed contract.'})
prop('M02', 'Looking up an entity by its ID finds it exactly when it exists',
     'In a full-representation mesh, looking up a vertex, edge, face or region by ID (by kind or through the generic entity call) returns the entity of that kind with that ID if the mesh holds one and nothing otherwise, for every ID including zero, negative ones and those beyond the largest in use. This holds before and after ID search is enabled, after any later creations, deletions and restorations, and after entities are renumbered and the cached maximum IDs recomputed; enabling ID search keeps every entity in the mesh and at most puts each kind in ID order.',
     ['inputs', 'histories'], FULL + ': any history of creation, deletion, restoration, renumbering and enabling of ID search, and every integer ID in range',
     'the lookup uses an index guess, a linear scan or a binary search depending on history; tests exercise one of them with dense IDs',
     ['src/base/Mesh.c', 'src/util/List.c', 'src/base/MEntity.c'],
     [('lookup by ID', 'Mesh.c MESH_VertexFromID, MESH_EdgeFromID, MESH_FaceFromID, MESH_RegionFromID, MESH_EntityFromID'), ('ID order flag', 'Mesh.c MESH_Enable_LocalIDSearch, MESH_Add_*, MEntity.c MEnt_Set_ID'), ('cached maximum IDs', 'Mesh.c MESH_Reset_Cached_MaxIDs')],
     claim={'note': PROOF + 'lookup, sorting and the creation, removal and renumbering that must keep the order flag honest are under contract. Sorting and binary search rest on the C library\'s qsort and bsearch. Requires IDs to be positive and pairwise different within a kind.'})
prop('A01', 'An attribute value is what was last set for that entity and attribute',
     'For every entity and every attribute of a mesh (integer, double, pointer, vector or tensor), the query reports a value exactly when one was set on that entity and has not been removed since, and it is the last one set; a vector or tensor is copied when set, so later changes to the caller\'s array do not show; clearing a value makes it zero and keeps it present; removing it makes the query report absent and zero, and no such operation affects another attribute or another entity. Clearing an attribute does so on all entities of the mesh, deleting an attribute takes its values off all entities of the mesh and the attribute out of the mesh; attributes are found by position, iteration and name as long as they exist.',
     ['inputs', 'histories'], FULL + ': any number of entities and attributes of all types and any sequence of operations on values, attributes and entities (entities deleted for good, not kept for restoration)',
     'values sit in per-entity lists shared by all attributes; interference shows only for particular mixes of attributes, types and removals; one bundled test sets a few values once',
     ['src/base/MEntity.c', 'src/base/MAttrib.c', 'src/base/Mesh.c'],
     [('values of an entity', 'MEntity.c MEnt_Set_AttVal, MEnt_Get_AttVal, MEnt_Rem_AttVal, MEnt_Clear_AttVal, MEnt_Rem_AllAttVals'), ('storage of a value', 'MAttrib.c MAttIns_Set_Value, MAttIns_Get_Value, MAttIns_Delete'), ('attributes of the mesh', 'Mesh.c MESH_Rem_Attrib, MESH_Clear_Attrib, MESH_Attrib, MESH_AttribByName')],
     claim={'note': PROOF + 'setting, querying, clearing and removing one value, and clearing and removing an attribute across all four entity lists, are under contract for any number of entities and values. Lookup by name (strcmp) and creation of attributes (malloc, varargs) are only executed.'})
prop('S01', 'Mesh sets are ordered collections with exact set algebra',
     'A set of a mesh holds its entities in the order they were put there: adding (or inserting before an entry or at a position) puts that one entry there and returns the set, adding with check does nothing if the entity is already in it, removing and replacing (by entry or position) affect that one entry, and count, position, membership and stepping agree with that sequence; a copy has the same entries, name and kind and is independent of the original, and appending a set to another adds its entries in order. The union of two sets of one mesh without repeated entries holds exactly the entities in either, the intersection exactly those in both, the difference exactly those in the first and not in the second, each once; intersection and difference give no set when there is nothing in it, and all three give none for sets of different meshes; the operands are left alone and the result is a new set of the mesh, of the common kind of entity or of all kinds (the difference: that of the first). The mesh lists exactly the sets created and not deleted, in order of creation, by position, stepping and name.',
     ['inputs', 'histories'], FULL + ': any number of sets of any kind and size and any sequence of these operations (names shorter than 256 characters)',
     'the bundled tests have no test of set algebra at all; results depend on the overlap, order and sizes of the operands',
     ['src/base/MSet.c', 'src/base/Mesh.c', 'src/util/List.c'],
     [('entries of a set', 'MSet.c MSet_Add, MSet_ChknAdd, MSet_Insert, MSet_Rem, MSet_Replace, MSet_Next_Entry'), ('set algebra', 'MSet.c MSets_Union, MSets_Intersect, MSets_Subtract, MSet_Copy, MSets_Cat'), ('sets of the mesh', 'Mesh.c MESH_Add_MSet, MESH_Rem_MSet, MESH_MSet, MESH_Next_MSet')],
     claim={'note': PROOF + 'every set operation, the set algebra and the mesh\'s list of sets are under contract for any number of entries (each caller against its callees\' contracts). Names (strcpy, strcat, strcmp) have no effect in the proofs; lookup by name is only executed.'})

prop('P01', 'A mesh knows its neighbour partitions and what it receives from them',
     'Once a mesh is told its partition number and the number of partitions, flagging that it has ghosts from (or overlaps on) a partition for a kind of entity makes exactly the query for that partition, relation and kind true: flags are independent of each other and never cleared, the own partition is never flagged as a source of ghosts, flagging all kinds sets the four, flagging any or unknown kinds sets none, and asking for any kind or for all kinds gives the disjunction or conjunction of the four (nothing is flagged before). The ghost partitions built from the flags are exactly the partitions with a ghost flag of some kind, each once in ascending order, until built anew. The number of entities of a kind to receive from a ghost partition is the one last set for that partition and kind, zero if none was set since it was built, and zero for the own partition, other partitions and invalid kinds; marking the adjacency current or stale is reported back.',
     ['inputs', 'histories'], 'any number of partitions, any own partition and any sequence of flagging, building, setting and asking',
     'the tests run on one to four processes with one pattern of neighbours; the records pack four kinds and two relations into a word per partition and all counts into one array',
     ['src/base/Mesh.c', 'include/Mesh.h'], [('flag words', 'MESH_Flag_Has_Ghosts_From_Prtn, MESH_Flag_Has_Overlaps_On_Prtn, MESH_Has_*'), ('receive record', 'MESH_Init_Par_Recv_Info, MESH_Num_GhostPrtns, MESH_GhostPrtns'), ('counts', 'MESH_Set_Num_Recv_From_Prtn, MESH_Num_Recv_From_Prtn')],
     claim={'note': PROOF + 'covers all fourteen functions. Bits of a flag word are a theory (shift, and, or on positions below 32). Assumes partitions in range, allocation succeeds, flag words and record are different blocks.'})

prop('M03', 'A mesh knows its ghost, overlap and interior entities',
     'Building the ghost lists of a mesh with no lists yet (or building them anew) lists, for each kind of entity, exactly the entities of the mesh of parallel type ghost as its ghosts and those of type overlap as its overlap entities, each once in increasing global ID, and marks the parallel adjacency stale if any is listed; from then on adding an entity to the ghost or overlap list appends it and removes nothing, deleting or removing a ghost or overlap entity takes it out of the mesh and of that list only, and restoring it appends it to both again. Counting, indexing and stepping over ghost and overlap entities agree with these lists, interior entities are counted and stepped over as those of type interior in mesh order (every entity being interior, overlap or ghost and the listed ones listed), all also on a mesh with no lists, and sorting the lists by global ID only reorders them. With search by global ID enabled (distinct global IDs per kind), asking for a kind the mesh has entities of and a global ID returns the entity that has it and nothing if there is none; a ghost or overlap vertex is found by its global ID in the lists.',
     ['inputs', 'histories'], FULL + ': any number of entities of each kind, any assignment of parallel types (interior, overlap, ghost) and global IDs, any sequence of creating, deleting, restoring, listing, sorting and building',
     'the parallel tests build ghost lists once on one to four processes and never delete or restore a ghost afterwards; nothing checks stepping or counts against the entities',
     ['src/base/Mesh.c', 'src/par/MESH_BuildGhostList.c', 'src/base/MVertex.c', 'src/base/MEdge.c', 'src/base/MFace.c', 'src/base/MRegion.c'],
     [('building the lists', 'MESH_Build_GhostLists, MESH_Surf_Build_GhostLists, MESH_Vol_Build_GhostLists'), ('editing', 'MESH_Add_Ghost*, MESH_Add_Overlap*, MESH_Rem_Ghost*, MESH_Rem_*'), ('queries', 'MESH_Num_Ghost*, MESH_Next_Interior*, ...'), ('global IDs', 'MESH_Enable_GlobalIDSearch, MESH_Sort_GlobalIDSearch_Lists, MESH_*FromGlobalID')],
     claim={'note': PROOF + 'building (surface and volume), editing, counting, stepping and lookup by global ID are under contract for any number of entities. MESH_Build_GhostLists itself (clearing the lists, then one of the two builders, then sorting) is only executed; sorting the eight lists is proved in the thorough tier only.'})

def nap(id, title, statement, over, qtext, why, files, mech, na):
    prop(id, title, statement, over, qtext, why, files, mech, na=na)
nap('W01', 'Writing a mesh and reading it back gives the same mesh',
    'A mesh written to an MSTK file and read back has the same entities, adjacencies, classification and attribute values.',
    ['inputs'], 'every mesh and attribute', 'tests read a few files and compare counts', ['src/base/MESH_WriteToFile.c', 'src/base/MESH_InitFromFile.c'], [('writer', 'MESH_WriteToFile'), ('parser', 'MESH_InitFromFile')],
    'the property is about the text produced by fprintf and consumed by fscanf/fgets in two functions of over a thousand lines with early exits; a contract would have to model formatted I/O, i.e. a hand-written model of libc decides it, not the code')
nap('W02', 'Import and export of foreign formats keep the mesh',
    'Importing a GMV, Exodus II or X3D file and exporting it again keeps vertices, elements, sets and materials.',
    ['inputs'], 'every file of the formats', 'tests import a few files', ['src/io'], [('import', 'MESH_ImportFromFile'), ('export', 'MESH_ExportToFile')],
    'the content is decided by external libraries (Exodus, NetCDF) that have no contracts and are not in the repository; Exodus support is not compiled here')
nap('D01', 'Distributing a mesh and updating ghosts gives every process a consistent view',
    'After distribution every entity is owned by exactly one process, ghost copies agree with the owner, and attribute updates carry the owner\'s values.',
    ['schedules', 'inputs'], 'every partitioning and number of processes', 'tests use two or four processes on small meshes', ['src/par'], [('distribution', 'MSTK_Mesh_Distribute'), ('update', 'MESH_UpdateAttributes')],
    'a relation between the memories of several processes connected by MPI messages; the deductive engine is sequential and has no contract language for message histories')
nap('D02', 'Partitioning covers the mesh',
    'Partitioning assigns every element to exactly one of the requested parts.',
    ['inputs'], 'every mesh and part count', 'tests partition a few meshes', ['src/par/MESH_Partition.c'], [('partition', 'MESH_Partition')],
    'decided by METIS or Zoltan, external and not installed')
nap('N01', 'Renumbering assigns consecutive IDs',
    'Renumbering a mesh (sequentially or by reverse Cuthill-McKee) gives the entities of each kind the IDs 1 to n, each once.',
    ['inputs'], 'every mesh', 'tests renumber one mesh', ['src/hilev/MESH_Renumber.c'], [('renumber', 'MESH_Renumber')],
    'a single function of several hundred lines that builds and walks a graph in nested worklists over freshly allocated arrays; its loop invariants (visited exactly once) are outside the reach of the candidate templates and a bounded test would be a different technique')
nap('T01', 'Mesh modification keeps the mesh valid',
    'Collapsing, splitting, swapping and joining edges, faces and regions succeed only when topologically allowed and leave a conforming mesh without dangling or degenerate entities.',
    ['inputs', 'histories'], 'every mesh and entity', 'tests collapse and split a few edges', ['src/mod'], [('collapse', 'ME_Collapse'), ('split', 'ME_Split, MF_Split'), ('join', 'MFs_Join, MRs_Join')],
    'conformity is an inductive property of the whole heap graph; each operation makes dozens of calls that change it piecewise and breaks it in between; stating it needs reachability or permission predicates over an unbounded graph, which first-order triggers do not decide')
nap('C01', 'Inferred classification is that of the geometric model',
    'Building classification from topology assigns every boundary entity the model entity it lies on, consistently across dimensions.',
    ['inputs'], 'every mesh', 'tests classify a cube', ['src/hilev/MESH_BuildClassfn.c'], [('classification', 'MESH_BuildClassfn')],
    'the result depends on floating-point angles between faces and on a flood fill over the whole mesh; neither real-number rounding nor the flood-fill fixed point is expressible in the contracts')
nap('H01', 'Reduced representations answer adjacency queries like the full one',
    'In representations F4, R1, R2 and R4 every adjacency query gives the same answer as in the full representation.',
    ['inputs'], 'every mesh in every representation', 'tests compare two meshes', ['src/base'], [('dispatch', 'MV_*jmp tables'), ('temporary entities', 'Hash.c')],
    'edges and faces of reduced representations are temporary entities created in queries and cached in a hash table with packed keys; equality is a relation between two heaps, and most of these queries are marked as not implemented in the code')
nap('B01', 'Copies and generated meshes have the right content',
    'Copying a mesh gives an equal mesh and generating a structured mesh gives the grid asked for.',
    ['inputs'], 'every mesh and grid size', 'tests generate one size', ['src/hilev/MESH_Gen_Structured.c', 'src/base/MESH_Copy.c'], [('generator', 'MESH_Gen_Structured'), ('copy', 'MESH_Copy')],
    'isomorphism of two unbounded heap graphs built in one function by nested loops over three-dimensional index arrays; needs a ghost isomorphism that would have to be threaded through every loop, beyond the candidate invariants of the engine')
nap('G01', 'Geometric queries give the right measures',
    'Condition numbers, angles and normals computed for elements are those of their geometry.',
    ['inputs'], 'every coordinates', 'tests compute a few', ['src/misc'], [('condition numbers', 'MF_CondNums, MR_CondNums'), ('vectors', 'MSTK_VecFuncs')],
    'floating-point accuracy; the engine treats doubles as reals, so a proof would not speak about the code\'s results')
