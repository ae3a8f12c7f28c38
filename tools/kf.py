import json
F=[
("C02","29325c2","minimum image of atoms more than one cell length apart"),
("C24","2fe8eae","Atom members were not initialised"),
("C22","5febf39","setters of fixed-size arrays read and wrote past their ends / accepted wrong lengths"),
("C22","f9f43dd","box, ghost atoms and atom indices of a System became inconsistent when box or atoms were set again"),
("C22","c6d0ad7","remap_atoms in triclinic cells, for far atoms and small systems"),
("C01","fd6f903","cell lists missed or repeated neighbors in triclinic, narrow and far shifted systems"),
("C23","80b4ee4","more than 300 neighbors wrote past the neighbor arrays"),
("C04","ed1bf0a","Voronoi neighbors with filters, and uninitialised vertex offsets"),
("C04","e3439f3","Voronoi tessellation of triclinic cells used an orthogonal container"),
("C25","2a1ec32","memory of the Voronoi container grew with the square of the number of atoms"),
("C03","39694e9","adaptive, sann and number methods: short lists accepted, cutoffs not set, filters"),
("C08","18ddf71","find_solids counted every bond as solid and ignored right=False"),
("C10","785f898","disorder used the first atoms of the system instead of the neighbors"),
("C06","d870a42","sign of the imaginary part of spherical harmonics with negative m"),
("C09","ccda8ec","clusters across the periodic boundary of small systems were split"),
("C13","0320bdb","entropy with local densities, left handed cells and empty shells"),
("C11","2f304dd","CNA, diamond and centrosymmetry with too few or with earlier neighbors"),
("C16","5205895","normalisation of the radial distribution function of small systems"),
("C18","db94da3","LAMMPS dumps of triclinic and rotated boxes, and the ASE fallback formats"),
("C19","e723bf0","conversion to ASE changed the atoms of the system, noncontiguous types, compressed POSCAR"),
("C20","4b46c0e","iteration, addition, indexing and modified blocks of trajectories"),
("C15","681c33c","short range order of one shell and of types that are not contiguous"),
("C28","0104b41","energies: averages on the fly, ids, mass, species and leftover files"),
("C27","4e8c172","void search in small systems and triclinic cells"),
("C02","c391758","remap_atom in triclinic cells and for far positions"),
("C22","85706ff","set_atom left the ghost atoms of small systems behind"),
("C06","8aa8ae1","Steinhardt parameters with filtered Voronoi neighbors were not normalised"),
("C04","b3000eb","Voronoi neighbors of narrow cells which are not the nearest images"),
("C08","1f1c3f5","number of solid bonds was not accessible, bonds was defined twice"),
("C21","02e61e0","condition of clustering was applied to the Steinhardt parameters calculated next"),
("C11","fffc243","common neighbor analysis counted bonds with other images in narrow cells"),
("C18","ee84771","a single custom column of a LAMMPS dump could not be written as documented"),
("C20","8cbb2b7","blocks written after an unterminated last line, and the text of empty trajectory slices"),
("C22","302470f","assigned neighbor distances, vectors, angles and sij of an Atom were ignored"),
("C22","01810a4","extract_cubic_box lost or repeated atoms on the borders of the cubic box"),
("C22","0f615d4","remap_atoms with remove_atoms removed atoms on the border of the box"),
("C04","c7b4baa","Voronoi cells of atoms that fill only a part of a triclinic cell; boxes and positions that are not finite"),
("C23","6ed342d","neighbor lists of atoms that refer to atoms outside the system were read out of bounds"),
("C23","e84d812","cell lists for positions that are not finite and cutoffs that are not positive"),
("C23","b76a902","remap_atom of short positions and clusters outside the range of atoms read out of bounds"),
("C23","6f1f9f6","entropy with steps that are not positive or not finite counted steps out of range"),
("C23","fb4fbff","Voronoi neighbors of extremely narrow cells ended the process or never returned"),
("C23","7301e16","positions very far away from the box were not remapped into it, Voronoi neighbors of them had undefined behaviour"),
("C26","50523c4","find_neighbors with an unknown method claimed to have found neighbors"),
("C26","bb9f995","assigning wrong or no atoms left a small system with an inconsistent box"),
("C26","7c07610","a LAMMPS dump that ends early was read as a snapshot with fewer atoms"),
("C27","41b98a8","compare_atomic_env attributed Voronoi fingerprints to the wrong volumes"),
("C28","79ee9ac","atom types were renumbered alphabetically in LAMMPS data files given to the engine"),
("C29","73777d5","colors of filtered plots were those of other atoms"),
("C29","e561c34","plots of small systems showed atoms outside the box that is drawn"),
("C29","0a43ae7","plots rendered again showed the atoms of earlier plots too"),
("C29","42953ef","origin of the plotted box was only used for some of its corners"),
("C29","8900fc9","a plot without any atoms that pass the filter failed"),
("C13","8b30f30","the switching function of the average entropy was 0/0 for neighbors at the distance ra"),
("C04","26f926b","the area cutoff of vorovector acted on powers of the face areas when voroexp is not 1"),
]
o=[{"property": "C03", "key": "sann-fourth-neighbor", "status": "open",
  "what": "find_neighbors(cutoff='sann') never lists the fourth nearest neighbor of an atom and takes one farther neighbor instead (system.cpp, get_all_neighbors_sann: index m instead of m-1); the stable tests pin it"},
 {"property":"C13","key":"entropy-last-point","status":"open",
  "what": "calculate_entropy leaves out the last but one point of the trapezoidal rule (atom.cpp, trapezoid_integration: j<nsteps-1), which with the correct sum would move a value pinned by a stable test (-3.471 within 0.001) to -3.4727"},
 {"property":"C14","key":"chiparams-antiparallel-rounding","status":"open",
  "what":"calculate_chiparams loses pairs of exactly opposite neighbors whose cosine rounds below -1 from the first bin; a stable test pins it"}]
for p,c,w in F: o.append({"property":p,"status":"fixed","commit":c,"what":"fixed: property=%s %s %s"%(p,c,w)})
open("/verif/known_findings.json","w").write('{"findings": [\n'+",\n".join(" "+json.dumps(x) for x in o)+"\n]}\n")
