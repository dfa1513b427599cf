"""source of properties.jsonl (run to regenerate)"""
import json, os
P = []
S2 = "ebsdtorch/s2_and_so3/"
def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
I, C, H, SC = "inputs", "configurations", "histories", "schedules"

p("C01", "Quaternion arithmetic is Hamilton's algebra for every input and batch shape",
  "Quaternion products, conjugates, normalisation and sign standardisation compute exactly the Hamilton product, the conjugate, the unit-length quaternion and the representative with nonnegative real part, for every batch shape with broadcasting. Products are associative, multiplicative in the norm, invertible by the conjugate for unit quaternions, and the specialised products (nonnegative real part, triple, axis only) equal the general one followed by the advertised projection. No operation changes its arguments.",
  [I], "all real quaternions (all unit ones where a unit is asked for), all batch shapes of rank 0 to 2 including broadcasting pairs, any lane length",
  "the tests multiply a few hundred random quaternions of one batch shape; identities must hold for all components and shapes",
  [S2 + "quaternions.py"], [("qu_prod, qu_prod_raw, qu_triple_prod_pos_real, qu_prod_axis, qu_conj, qu_norm, qu_std", S2 + "quaternions.py")])
p("C02", "Rotating points: quaternion action, slerp, angle and shortest-arc rotation",
  "Applying a unit quaternion to points is the proper rotation it stands for: it keeps lengths, angles and handedness, composes like the product, and does not depend on the quaternion's sign. Spherical interpolation moves a fraction t along the arc between two quaternions at unit length, and the rotation built between two unit vectors is a unit quaternion that carries the first exactly onto the second, parallel and opposite vectors included. The rotation angle is twice the arc cosine of the real part.",
  [I], "all unit quaternions, points and unit vectors, all t in [0, 1], all batch shapes of rank 0 to 2",
  "no test covers interpolation or shortest-arc rotations, and degenerate (equal, opposite) inputs have measure zero under random sampling",
  [S2 + "quaternions.py"], [("qu_apply, qu_slerp, qu_angle, quaternion_rotate_sets_sphere", S2 + "quaternions.py")])
p("C03", "Every orientation conversion preserves the rotation",
  "Converting a rotation between any two of the supported representations (quaternion, matrix, axis-angle, Rodrigues-Frank, Bunge angles, Zhou 6D, homochoric, cubochoric) yields a valid member of the target representation that stands for the same rotation, independent of the quaternion's sign. The result is finite at the identity, at 180 degree rotations and at the poles of the Euler angles. Every batch shape is accepted and arguments are left unchanged.",
  [I], "all rotations (and all representatives of each), every ordered pair of representations, batch ranks 0 to 2",
  "the tests round-trip random rotations, which never hit 180 degree rotations, the identity or Euler degeneracies and never exercise other batch shapes",
  [S2 + "orientations.py"], [("primitive conversions", S2 + "orientations.py"), ("derived conversions (compositions)", S2 + "orientations.py")])
p("C05", "Homochoric and cubochoric maps are the equal-volume bijections",
  "The homochoric vector of a rotation by angle w about n is n times (3/4 (w - sin w))^(1/3), and the cubochoric vector is its image under the equal-volume ball-to-cube map. The ball-to-cube map and its inverse undo each other on the whole cube and ball, send the cube's surface to the ball's surface, commute with the cube's axis permutations and sign changes, and send zero to zero.",
  [I], "all rotations; all points of the cube of edge pi^(2/3) and of the ball of radius (3 pi/4)^(1/3), faces, edges, corners and axes included",
  "round-trip tests on random points do not reach pyramid boundaries, the axes or the origin, and cannot see a map that is a bijection but not the documented one",
  [S2 + "orientations.py"], [("ax2ho, qu2ho, ho2ax, ho2cu, cu2ho", S2 + "orientations.py")])
p("C06", "The SE(3) exponential and logarithm are inverse and produce rigid motions",
  "The exponential of a rotation vector and translation part is the rigid motion with that screw: its rotation block is the rotation about the vector by its length and its translation is the left Jacobian applied to the translation part. The logarithm undoes the exponential for rotation angles below 180 degrees, the matrix, split and quaternion forms agree with each other, and the left Jacobian and its inverse are inverse matrices.",
  [I], "all rotation vectors (zero and tiny ones included) and translations, all supported batch shapes",
  "the small-angle branch and general branch are never compared by a test, and random inputs never reach the switch-over",
  ["ebsdtorch/lie_algebra/se3.py"], [("w_exp, w_to_v, w_to_v_inv, se3_exp_map_*, se3_log_map_*", "ebsdtorch/lie_algebra/se3.py")])
p("C07", "The eleven Laue tables are the rotation groups they name",
  "For each of the eleven Laue classes the stored rotation operators form a finite group of the advertised order: closed under products and inverses up to sign, containing the identity first, and free of duplicates. Each is the rotation group the class is named after, in the documented axis setting, and the reported multiplicity is its order.",
  [C], "all eleven Laue classes and every pair of operators in each",
  "tests use the tables to check themselves; a wrong but unit operator is not detected",
  [S2 + "laue_generators.py"], [("laue_elements, get_laue_mult", S2 + "laue_generators.py")])
p("C08", "Reduction to the orientation fundamental zone returns an equivalent minimum",
  "Reducing an orientation for a Laue class returns a unit quaternion with nonnegative real part that is symmetry-equivalent to the input (differs by a left operator of the class) and has the smallest rotation angle of all equivalents. It gives the same result up to equivalence for every equivalent input and for either sign, and reducing twice changes nothing. The list of equivalents contains exactly the products of the operators with the orientation.",
  [I, C], "all unit quaternions, all eleven Laue classes, all batch shapes",
  "tests sample random orientations for the classes; minimality and invariance are universally quantified",
  [S2 + "laue_fz_ori.py"], [("ori_to_fz_laue, ori_equiv_laue", S2 + "laue_fz_ori.py")])
p("C09", "The closed-form fundamental zone test agrees with exhaustive minimisation",
  "For every Laue class, the closed-form inequality test accepts a unit quaternion exactly when no symmetry-equivalent orientation has a smaller rotation angle, apart from points on the boundary of the zone. The exhaustive test and the closed-form test therefore agree off the boundary, and every orientation has an equivalent that is accepted.",
  [I, C], "all unit quaternions with nonnegative real part off the zone boundary, all eleven Laue classes",
  "a wrong facet constant changes the answer only in a thin shell that a few random samples can miss; agreement is a for-all statement",
  [S2 + "laue_fz_ori.py"], [("ori_in_fz_laue, ori_in_fz_laue_brute", S2 + "laue_fz_ori.py")])
p("C10", "Disorientation is the minimum over both symmetry groups and is symmetric",
  "The disorientation angle of two orientations under two Laue classes is the smallest rotation angle among all misorientations obtained by applying operators of either class on its side, the reported misorientation realises it, and the angle is unchanged by replacing either orientation by an equivalent, by flipping signs, or by swapping the two. Orientation angles to the fundamental zone representative agree with it, and the two implementations agree.",
  [I, C], "all pairs of unit quaternions, all pairs of Laue classes",
  "invariance under both groups is a for-all property; tests compare two implementations on one random sample",
  [S2 + "laue_fz_ori.py", S2 + "laue_fz_misori.py"], [("disorientation, disori_angle_laue, ori_angle_laue", S2 + "laue_fz_ori.py"), ("disorientation_naive, misori_to_fz_laue", S2 + "laue_fz_misori.py")])
p("C11", "Directions reduce into the Laue class's sector of the sphere",
  "For every Laue class, reducing a direction returns a symmetry-equivalent direction (up to inversion) inside the class's standard sector, the sector and its images cover the sphere without overlap apart from boundaries, and membership is decided by the documented sector. The list of equivalent directions is exactly the orbit of the point under the class, and sampled sector points all lie in the sector.",
  [I, C], "all unit vectors, all eleven Laue classes, all batch shapes",
  "coverage and disjointness of the sectors are for-all statements; boundary points (poles, mirror planes) are measure zero",
  [S2 + "laue_fz_s2.py"], [("s2_in_fz_laue, s2_to_fz_laue, s2_equiv_laue, sample_s2_fz_laue_*", S2 + "laue_fz_s2.py")])
p("C12", "Sphere and rotation grids contain the requested number of valid points",
  "Every sampler returns exactly the advertised number of points: unit vectors on the sphere, unit quaternions with the advertised sign convention, or samples inside the fundamental zone asked for. The cubochoric grid is symmetric under inversion, covers the cube evenly with the requested edge length, and uniform variates map to uniform rotations by the documented formula.",
  [I, C], "all sample counts, edge lengths, Laue classes and random variates",
  "tests call a few sizes only and look at no invariant",
  [S2 + "sampling.py", S2 + "laue_fz_ori.py"], [("s2_fibonacci, so3_fibonacci, so3_uniform_quat, so3_cu_rand, so3_cubochoric_grid", S2 + "sampling.py"), ("sample_ori_fz_laue", S2 + "laue_fz_ori.py")])
p("C13", "Square/hexagon to hemisphere projections are inverse, equal-area and finite",
  "The equal-area projection of the hemisphere onto the square and its inverse undo each other everywhere, the pole, diagonals and equator included; results are finite, unit length and in the stated hemisphere or square. The projection sends concentric squares to circles of latitude with the area-preserving radius. Every copy of the projection in the package computes the same map, and spherical-to-Cartesian conversions are inverse to each other.",
  [I], "all points of the square [-1,1]^2 and of the hemisphere, poles, diagonals and edges included",
  "random points never hit the pole, axes or diagonals, where the branches meet and divide by zero",
  [S2 + "sphere.py", "ebsdtorch/utils/rosca_lambert.py", "ebsdtorch/crystallography/kvectors.py", "ebsdtorch/simulation/monte_carlo.py"],
  [("rosca_lambert, inv_rosca_lambert, theta_phi_to_xyz, xyz_to_theta_phi", S2 + "sphere.py"), ("square_to_hemisphere, hexagon_to_hemisphere", "ebsdtorch/utils/rosca_lambert.py, ebsdtorch/crystallography/kvectors.py")])
p("C14", "Space groups and point groups map to the right Laue class",
  "Each of the 230 space group numbers and each of the 32 crystallographic point group symbols is assigned the Laue class of the International Tables, and anything else is rejected. The two assignments agree with each other wherever a space group's point group is known.",
  [C], "all 230 space group numbers, all 32 point groups, all other inputs",
  "no test reads these tables",
  ["ebsdtorch/utils/symmetry_classes.py"], [("space_group_to_laue, point_group_to_laue", "ebsdtorch/utils/symmetry_classes.py")])
p("C15", "Space group operators form a closed group modulo lattice translations",
  "For each of the 230 space groups the generated symmetry operators are distinct, contain the identity, are closed under composition modulo lattice translations, and their linear parts are integer matrices of determinant plus or minus one that preserve the metric of the crystal family. The rotation parts belong to the Laue class of that space group, and the operator count is its multiplicity.",
  [C], "all 230 space groups and all pairs of operators in each",
  "tests exercise a handful of groups; each generator string is a separate opportunity for a typo",
  ["ebsdtorch/crystallography/groups.py"], [("read_sg_gen_string, matmul_trans_mod, sg_operators", "ebsdtorch/crystallography/groups.py")])
p("C16", "Unit-cell metrics, bases and transforms are consistent for every cell",
  "For every valid cell the metric tensor is that of the cell parameters, the reciprocal metric is its inverse, the volume is the square root of its determinant, and the structure matrices factor the metrics. Changes between direct, reciprocal and Cartesian components are inverse to each other and preserve lengths, dot products, angles and cross products, and density and mean atomic number are the per-cell mass and composition averages.",
  [I, C], "all cell parameters of positive volume in all crystal systems and all vectors",
  "tests check a few cells at a few vectors",
  ["ebsdtorch/crystallography/unit_cell.py"], [("Cell.__init__, transform_space, calc_dot, calc_length, calc_angle, calc_cross", "ebsdtorch/crystallography/unit_cell.py")])
p("C17", "The reflection list is complete and sound down to the resolution limit",
  "The generated reflection list contains every allowed reciprocal lattice point with plane spacing at or above the requested limit, contains no forbidden or finer one, excludes the zero vector, and uses index limits that no qualifying reflection exceeds. A reflection is allowed exactly when the lattice centring's parity condition holds.",
  [I, C], "all cells, centrings and resolution limits; all integer triples",
  "tests do not compare with an enumeration; skewed cells and axial reflections reach the index limits",
  ["ebsdtorch/crystallography/unit_cell.py"], [("is_g_allowed, get_hkl_limits, get_reflections", "ebsdtorch/crystallography/unit_cell.py")])
p("C18", "Detector projection and back-projection are inverse; parameters round-trip",
  "A detector pixel projected to the sample frame and projected back lands on the same pixel for every geometry, the detector pose is a rigid motion, and building the pose from pattern-centre parameters and recovering them returns the same parameters. Pixel coordinates are those of the pixel centres of the (binned) detector.",
  [I, C], "all tilts, detector distances, pattern centres, detector shapes and binning factors",
  "tests project a single geometry",
  ["ebsdtorch/ebsd/geometry.py", "ebsdtorch/ebsd/fitting.py"], [("EBSDGeometry, bruker_geometry_to_SE3, bruker_geometry_from_SE3", "ebsdtorch/ebsd/geometry.py"), ("get_3D_pixel_coords, bruker_geometries_to_SE3", "ebsdtorch/ebsd/fitting.py")])
p("C19", "Chunked nearest-neighbour search returns the exact top matches",
  "Feeding a data set in chunks and querying returns, for each query, exactly the k best matches over the whole data set with their values and global indices, in order, whatever the chunk boundaries, order of chunks and query batch size. The metric asked for (cosine, Euclidean, Manhattan) is the one used.",
  [I, H, C], "all data, queries, k, chunkings of data and queries, metrics",
  "tests use one chunking; the merge must be right for every split and every arrival order",
  ["ebsdtorch/utils/knn.py"], [("ChunkedKNN.set_data_chunk, query_all, query_chunk, retrieve_topk, knn_batch", "ebsdtorch/utils/knn.py")])
p("C20", "The streamed covariance equals the batch covariance for every split",
  "Feeding data to the online covariance in any sequence of batches yields the mean and covariance of all the data seen, independent of how it was split, and the correlation or eigenvector outputs are those of that matrix. The state after a batch depends on the earlier ones only through count, mean and covariance.",
  [I, H], "all data and all splits into batches of any sizes",
  "tests use one split; the update formula must hold after every history of batches",
  ["ebsdtorch/utils/pca_covmat.py"], [("update_covmat, OnlineCovMatrix.forward, get_covmat", "ebsdtorch/utils/pca_covmat.py")])
p("C21", "Pattern containers keep data and results attached to the right pixel",
  "The experiment container returns patterns, coordinates, orientations and deformation matrices in the same order as stored, stored values read back unchanged after being set, and per-pattern normalisation gives zero mean and unit deviation. Combining indexing results of several phases picks, for every pattern, the phase whose best score is best in the metric's sense, with that phase's orientations.",
  [I, C], "all pattern stacks, coordinates, phases, masks and score sets",
  "tests do not combine phases and never use a partial mask",
  ["ebsdtorch/ebsd/experiment_pats.py"], [("ExperimentPatterns", "ebsdtorch/ebsd/experiment_pats.py")])
p("C22", "Pattern filters keep shape and the averages they promise",
  "Preprocessing returns an image of the documented shape for every input size: neighbour averaging is a convex combination of neighbouring patterns, the Gaussian blur has unit gain so constant images stay constant, contrast equalisation outputs values in [0, 1] and is monotone within a tile, and a radial mask contains exactly the pixels within the stated radius. None of them moves image content.",
  [I, C], "all image sizes, contents, radii, clip limits and kernel parameters",
  "tests cover one size; kernels and index arithmetic depend on parity and borders",
  ["ebsdtorch/preprocessing/clahe.py", "ebsdtorch/preprocessing/nlpar.py", "ebsdtorch/preprocessing/radial_mask.py", "ebsdtorch/preprocessing/resampling.py"],
  [("clahe_grayscale, nlpar, get_radial_mask, GaussianBlur2d, BlurAndDownsample", "ebsdtorch/preprocessing")])
p("C23", "Wigner d values and spherical harmonic transforms are consistent",
  "The Wigner d coefficients computed by either method equal the textbook ones for every order and angle, satisfy the symmetry relations, and form orthogonal matrices for each degree. The forward and inverse spherical harmonic transforms undo each other for band-limited functions, for real and complex data.",
  [I, C], "all orders below the bandwidth, all angles in (0, pi), all band-limited functions",
  "tests check a few orders and one bandwidth",
  ["ebsdtorch/harmonics/wigner_d_logspace.py", "ebsdtorch/harmonics/wigner_d_xnum.py", "ebsdtorch/harmonics/sht.py"],
  [("wigner_d_lt_half_pi, wigner_d_eq_half_pi, index_from_coords, coords_from_index", "ebsdtorch/harmonics/wigner_d_logspace.py"), ("xnum arithmetic, wigner_d_xnum", "ebsdtorch/harmonics/wigner_d_xnum.py"), ("CSHT, RSHT", "ebsdtorch/harmonics/sht.py")])
p("C24", "Image similarity and factorisation helpers return what they promise",
  "Binned mutual information is symmetric, nonnegative, largest between an image and itself and unchanged under relabelling by shuffling both images together. The nearly square factorisation returns two factors whose product is the number, as close to square as possible, for every positive integer.",
  [I], "all image pairs, bin counts and all positive integers in range",
  "tests do not cover either",
  ["ebsdtorch/utils/mutual_information.py", "ebsdtorch/utils/factorize.py"], [("binned_nmi, batch_binned_nmi, mutual_information", "ebsdtorch/utils/mutual_information.py"), ("FactorECM, nearly_square_factors", "ebsdtorch/utils/factorize.py")])
p("C25", "Master pattern lookup interpolates the right hemisphere at the right point",
  "Interpolating a master pattern at a direction returns the value of the northern or southern hemisphere image at the direction's equal-area projection, is exact at pixel centres, stays within the image's range, depends only on the direction and not its length where normalisation is requested, and has the batch shape of the query. Normalising keeps the image order and gives the advertised range.",
  [I, C], "all directions, images, image sizes and normalisation modes",
  "tests do not compare the lookup with the projection",
  ["ebsdtorch/ebsd/master_pattern.py"], [("MasterPattern.interpolate, normalize, bin", "ebsdtorch/ebsd/master_pattern.py")])
p("C26", "Simulated electron trajectories conserve energy and direction norms",
  "In the Monte Carlo back-scatter simulation every electron's energy never increases, its direction stays unit length after each scattering event, and every recorded exit falls in exactly one energy, depth and direction bin with the total count equal to the number of recorded electrons.",
  [I, SC], "all seeds, energies, tilts and materials",
  "a statistical simulation; tests do not run it",
  ["ebsdtorch/simulation/monte_carlo.py"], [("bse_sim_mc", "ebsdtorch/simulation/monte_carlo.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P))
