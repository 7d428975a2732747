#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
S = "McCalib/src/"
def where(sym, files):
    # the source file which defines the symbol
    name = sym.split("::")[-1]
    for f in files + [S+"McCalib.cpp", S+"geometrytools.cpp", S+"utilities.cpp"]:
        t = open(os.path.join("/repo", f)).read() if os.path.exists(os.path.join("/repo", f)) else ""
        if (sym + "(") in t or ("::" not in sym and name + "(" in t):
            return f
    return files[0]
def p(id, title, st, over, qt, why, files, syms):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt),
                  why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=x, where=where(x, files)) for x in syms] or [dict(name='whole file', where=files[0])])))
S = "McCalib/src/"
p("C01", "Configuration options take effect as documented",
  "For every valid configuration file the rig that is built has exactly the configured cameras (each with its own distortion model) and the selected boards (each with its own square counts, square size and printed index, falling back to the common values where no per-board list is given). Every documented scalar option (refinement, thresholds, iteration limit, averaging mode, hand-eye method, fixing of intrinsics, paths, saving flags) takes the value written in the file. The corners of a board form the regular grid given by its counts and size.",
  ["configurations"], "all combinations of present / absent per-board lists, board selections, per-camera models and option values",
  "The end-to-end tests need a data set and use a handful of fixed files; no test combines the options.",
  [S+"McCalib.cpp", S+"Board.cpp"], ["Calibration::Calibration", "Board::Board"])
p("C02", "Printed boards and detector agree on board and corner identity",
  "For any number and shape of boards, the boards written by the board generator carry pairwise disjoint marker sets, and an image of generated board k is attributed to board k only, with every detected corner index denoting the same physical corner of the printed pattern. This does not depend on which subset of boards the calibration is told to look for.",
  ["configurations", "inputs"], "all board counts, shapes and selections",
  "No test generates or detects a board.",
  [S+"utilities.cpp", S+"McCalib.cpp", S+"Board.cpp", "apps/create_charuco_boards/src/create_charuco_boards.cpp"],
  ["createCharucoBoards", "createCharucoBoardsImages", "Calibration::detectBoardsInImageWithCamera"])
p("C03", "Parallel detection yields one complete, consistent database",
  "Whatever the scheduling of the detection threads, after detection the database holds exactly one observation for every accepted (camera, image, board) and nothing else, and every view of it (by camera, by frame, by board, by camera-and-frame) refers to exactly the same observations. The frame number of an image is its position in the sorted list of that camera's image files; files that cannot be read (other than the first) or are not images leave no trace and disturb nothing else.",
  ["schedules", "inputs"], "all interleavings of the worker threads; all contents of the image folders",
  "The tests run one schedule on one data set and never look at the database.",
  [S+"McCalib.cpp", S+"Camera.cpp", S+"Frame.cpp", S+"CameraObs.cpp", S+"Board.cpp"],
  ["Calibration::detectBoards", "Calibration::detectBoardsWithCamera", "Calibration::insertNewBoard"])
p("C04", "A detected board is accepted exactly by the documented rule",
  "A board detected in an image becomes an observation exactly when more than the configured fraction of its corners (rounded to a whole number) were found, more than four corners were found, and the found corners are not (nearly) collinear on the board; the stored 2D points are the (refined, if enabled) positions of exactly those corners, in matching order.",
  ["inputs", "configurations"], "all subsets of visible corners, all fractions, refinement on and off",
  "No test exercises partial boards.",
  [S+"McCalib.cpp", S+"geometrytools.cpp"], ["Calibration::detectBoardsInImageWithCamera", "calcLinePara"])
p("C05", "Saved key points reload to the same observations",
  "Writing the detected key points and loading them again gives the same observations: same cameras, frames, image paths, boards, corner indices, 2D points and image sizes, each exactly once; saving again reproduces the file.",
  ["inputs", "histories"], "all databases, including sparse frame numbers and cameras that miss frames",
  "No test writes or reads a key point file.",
  [S+"McCalib.cpp"], ["Calibration::saveDetectedKeypoints", "Calibration::loadDetectedKeypoints"])
p("C06", "Pose estimation drops outliers only and keeps points paired",
  "Estimating the pose of an observation of a board or of an object recovers the pose that its consistent corners agree on; the points that remain are consistent with that pose and each is still paired with its own corner index, and gross outliers are gone. An observation left with fewer than four consistent points is marked invalid and influences nothing downstream (no relative pose, no object, no camera pose); it never ends the calibration.",
  ["inputs"], "all sets of visible corners and outliers (as long as outliers are a minority, or the observation is hopeless)",
  "Not tested; RANSAC paths with outliers, few points or fisheye cameras are never reached.",
  [S+"BoardObs.cpp", S+"geometrytools.cpp", S+"McCalib.cpp"], ["BoardObs::estimatePose", "ransacP3P", "ransacP3PDistortion"])
p("C07", "3D objects partition the boards and index every corner once",
  "The boards that were observed are partitioned into objects exactly by being linked through images that show several boards; the board with the lowest number is an object's reference and defines its frame. Every corner of every board of an object has exactly one index in the object and back, and the 3D point at that index is the corner placed by the board's pose in the object; this stays true after every refinement and merge.",
  ["inputs", "histories"], "all co-visibility patterns of boards, all pipeline stages",
  "The tests only check the final numbers of fixed data sets.",
  [S+"McCalib.cpp", S+"Object3D.cpp"], ["Calibration::init3DObjects", "Calibration::initInterBoardsGraph", "Calibration::mergeObjects", "Object3D::refineObject", "Object3D::updateObjectPts"])
p("C08", "Relative board poses chain along the best-observed path",
  "The relative pose of two boards is averaged from every image that shows both, and the pose of a board in its object is the composition of such relative poses along a path from the reference board that minimises the sum of 1/(number of joint observations).",
  ["inputs"], "all co-visibility patterns and multiplicities of boards",
  "Needs chains of several boards with competing paths; tests have none.",
  [S+"McCalib.cpp", S+"Graph.cpp"], ["Calibration::computeBoardsPairPose", "Calibration::initInterTransform", "Calibration::init3DObjects"])
p("C09", "Co-visibility graph queries are exact and always return",
  "For every sequence of vertex and edge insertions, the connected components returned are exactly the components over the inserted vertices, each vertex once; the path returned between two vertices runs along existing edges, starts and ends at them, and has the minimal total weight; if there is none, or a vertex is unknown, an empty path is returned and the query ends. Inserting a vertex twice changes nothing and clearing forgets everything.",
  ["inputs", "histories"], "all insertion histories of small weighted graphs",
  "The tests use unit weights on a few graphs and never ask for a path that does not exist.",
  [S+"Graph.cpp"], ["Graph::addVertex", "Graph::addEdge", "Graph::connectedComponents", "Graph::shortestPathBetween", "Graph::clearGraph"])
p("C10", "Object observations cover every board observation exactly once",
  "At every stage, for every image and every object visible in it there is exactly one object observation, made of exactly that image's valid observations of the object's boards, with every 2D point paired with the object index of its own corner; every list of object observations (overall, by camera, by frame, by image, by object, by camera group) holds each of them exactly once. In particular merging objects or groups neither loses nor duplicates observations.",
  ["inputs", "histories"], "all visibility patterns, before and after each merge",
  "Duplicated or lost observations leave the noise-free result of the tests unchanged.",
  [S+"McCalib.cpp", S+"Object3DObs.cpp", S+"CameraGroup.cpp", S+"CameraGroupObs.cpp"],
  ["Calibration::init3DObjectObs", "Calibration::mergeAllObjectObs", "Calibration::initCameraGroupObs", "Calibration::mergeAllCameraGroupObs", "Object3DObs::insertNewBoardObs"])
p("C11", "Camera groups partition the cameras by shared objects",
  "The cameras with observations are partitioned into groups exactly by being linked through frames in which both see the same object; each such camera is in exactly one group, and the lowest-numbered camera of a group is its reference, whose pose is the identity.",
  ["inputs"], "all visibility patterns of cameras, frames and objects",
  "The data sets of the tests form one fixed pattern each.",
  [S+"McCalib.cpp", S+"CameraGroup.cpp"], ["Calibration::computeCamerasPairPose", "Calibration::initInterCamerasGraph", "Calibration::initCameraGroup"])
p("C12", "Camera poses chain along the best-observed path",
  "The relative pose of two cameras is averaged over every frame and object both see, and the initial pose of a camera in its group is the composition of such relative poses, in order, along a path from the reference camera that minimises the sum of 1/(number of joint observations).",
  ["inputs"], "all co-visibility patterns and multiplicities of cameras",
  "Needs three or more cameras in a chain; in the tests a later optimisation hides a wrong chain.",
  [S+"McCalib.cpp", S+"Graph.cpp"], ["Calibration::computeCamerasPairPose", "Calibration::initCameraGroup"])
p("C13", "Object poses in a camera group come from the right observations",
  "For every frame and camera group, each object seen by the group gets one pose in the frame of the reference camera: the one measured by the reference camera if it sees the object, otherwise the average over the cameras of the group that see it, each taken through that camera's own pose; all observations of the object in that frame share it.",
  ["inputs"], "all visibility patterns, with and without the reference camera",
  "Not observable in the final numbers the tests compare.",
  [S+"CameraGroup.cpp", S+"CameraGroupObs.cpp"], ["CameraGroup::computeObjPoseInCameraGroup", "CameraGroupObs::computeObjectsPose", "CameraGroupObs::updateObjObsPose"])
p("C14", "Non-overlapping groups are related by the best object pair",
  "For two camera groups that share no object, the pair of objects seen simultaneously most often is used; if it is seen in more than three common frames, the relative pose obtained from it (by either hand-eye method) is the true one on consistent data, whatever the relative orientation of the groups; with three or fewer common frames no relation is invented.",
  ["inputs", "configurations"], "all numbers of common frames and objects, both methods, all relative orientations",
  "One data set with many frames and nearly parallel groups; the final optimisation hides a wrong start.",
  [S+"McCalib.cpp", S+"geometrytools.cpp"],
  ["Calibration::findPairObjectForNonOverlap", "Calibration::initNonOverlapPair", "handeyeCalibration", "handeyeBootstraptTranslationCalibration", "checkSetConsistency"])
p("C15", "Merging camera groups keeps every camera and joins only related ones",
  "After merging, two cameras are in the same group exactly when their groups were linked by a chain of estimated relations between groups; no camera that was in a merged group is lost or duplicated, its pose is its old pose composed with that chain (best-observed path first), and the lowest group's reference camera becomes the reference. Merging again without new relations changes nothing.",
  ["inputs", "histories"], "all group relation graphs and repeated merges",
  "The tests have at most two groups and look at the final numbers only.",
  [S+"McCalib.cpp"], ["Calibration::initInterCamGroupGraph", "Calibration::mergeCameraGroup"])
p("C16", "Merging objects keeps every board and its place",
  "Objects seen in the same frame by the same camera group are merged (transitively) and only those; every board of an observed object is in exactly one merged object, whose reference is the lowest object's reference board, and the pose of every board in the merged object is its old pose composed with the averaged relative object poses along the best-observed path.",
  ["inputs", "histories"], "all patterns of objects, groups and frames",
  "No test has objects that merge through a chain.",
  [S+"McCalib.cpp"], ["Calibration::computeObjectsPairPose", "Calibration::initInterObjectsGraph", "Calibration::mergeObjects"])
p("C17", "Given intrinsics are loaded per camera and kept when fixed",
  "Intrinsics given in a file are assigned to the camera of the same number under its own distortion model; when they are to be kept fixed the output holds exactly these values, otherwise they are refined (perturbed start values converge to the true ones on consistent data). A parameter file written by one run is accepted as the input of another.",
  ["configurations", "histories"], "all camera models and mixtures, fixed and free",
  "The tests neither load nor fix intrinsics.",
  [S+"McCalib.cpp", S+"Camera.cpp", "McCalib/include/OptimizationCeres.h", S+"CameraGroup.cpp"],
  ["Calibration::initializeCalibrationAllCam", "Camera::setIntrinsics", "Camera::refineIntrinsicCalibration", "CameraGroup::addCameraGroupAndObjectsAndIntrinsicsResiduals"])
p("C18", "Refinement never moves references nor worsens the fit",
  "Every refinement stage leaves the reference camera of each group and the reference board of each object at the identity, leaves everything as it is (up to numerical precision) when the data are already fitted exactly, and restores the exact solution from a slightly perturbed one; it does not increase the overall reprojection error of data without gross errors, also when several groups share an object.",
  ["inputs"], "all visibility patterns and camera models, all refinement stages",
  "The tests check only that final errors are small on fixed data.",
  [S+"Object3D.cpp", S+"CameraGroup.cpp", S+"Camera.cpp", "McCalib/include/OptimizationCeres.h"],
  ["Object3D::refineObject", "CameraGroup::refineCameraGroup", "Calibration::refineAllCameraGroupAndObjects", "Calibration::refineAllCameraGroupAndObjectsAndIntrinsic", "CameraGroup::addCameraGroupAndObjectsResiduals", "CameraGroup::addCameraGroupAndObjectsAndIntrinsicsResiduals"])
p("C19", "The camera file lists every calibrated camera once, in its group",
  "The camera parameter file has one entry for every camera of every camera group, with its intrinsics, distortion vector and model, image size, the number of its group, and the pose that maps its coordinates to those of the group's reference camera (identity for the reference itself); the total number of cameras is recorded once and the configured file name is used.",
  ["inputs", "configurations"], "all numbers of cameras and remaining groups",
  "The tests read internal state, not the file; several remaining groups never occur.",
  [S+"McCalib.cpp"], ["Calibration::saveCamerasParams"])
p("C20", "Object and pose files describe the calibrated scene",
  "The object file has, for every object, one column for every corner of every board in it with its 3D position and its board and corner number. The pose file has, for every object, one column per observation of the object with its pose in the frame of the reference camera of the observing group.",
  ["inputs"], "all numbers of boards, objects and groups",
  "No test reads these files.",
  [S+"McCalib.cpp"], ["Calibration::save3DObj", "Calibration::save3DObjPose"])
p("C21", "The error log accounts for every observed corner once",
  "The reprojection error log lists, for every camera group, exactly the frames that group has observations in and, for each of them, the cameras that contributed, with one error per observed point; each error is the distance between the observed and the predicted point under the final calibration, and the reported mean is the mean over all camera-frame entries of their mean error.",
  ["inputs"], "all numbers of groups, frames, cameras, with perfect and noisy points",
  "No test reads the log.",
  [S+"McCalib.cpp"], ["Calibration::saveReprojectionErrorToFile", "Calibration::computeAvgReprojectionError"])
p("C22", "Consistent data are calibrated exactly, whatever the visibility",
  "For noise-free observations of a rigid rig and scene, the calibrate program ends successfully for every visibility pattern, and the result agrees with the truth for everything the data relate: all cameras linked by seeing the same object at the same time, through chains of such links, or through enough (more than three) simultaneous views of a pair of distinct objects end up in one group with true poses, and unrelated ones in separate groups, each internally correct.",
  ["inputs", "configurations"], "all visibility patterns of small rigs, both camera models and mixtures, both averaging modes and hand-eye methods",
  "Five fixed data sets that are not even available offline.",
  ["apps/calibrate/src/calibrate.cpp", S+"McCalib.cpp"], ["runCalibrationWorkflow"])
p("C23", "Annotated images are written exactly when asked for",
  "Detection images and reprojection images are written if and only if their option is 1, one per camera and image in which that camera has an observation, in a folder per camera and named by the frame number; the detected (and reprojected) points are drawn on a copy of the right image, and the input images are not modified.",
  ["configurations", "inputs"], "all flag values and visibility patterns",
  "No test looks at these files.",
  [S+"McCalib.cpp", "apps/calibrate/src/calibrate.cpp"], ["Calibration::saveDetectionImages", "Calibration::saveReprojectionImages"])
p("C24", "Averaging relative poses is robust and order-independent",
  "The averaged pose of a set of measurements does not depend on their order, equals the measurement if all agree, and its translation (and, in median mode, its rotation) equals the value a strict majority agrees on, however wrong the others are; in quaternion mode the average rotation does not depend on the sign or branch of the representation of its inputs and lies in the middle of measurements that are symmetric about one rotation; every component of the translation (and of the rotation vector in median mode) is a median of the measured ones.",
  ["inputs"], "all multisets of up to 7 measurements, all permutations, both modes",
  "No test averages anything.",
  [S+"McCalib.cpp", S+"geometrytools.cpp"], ["Calibration::initInterTransform", "getAverageRotation", "median"])
p("C25", "Unusable input is refused without leaving results",
  "Started with a configuration path that does not exist or is not a .yml file, the program reports failure with a non-zero exit status and writes no result files; with a usable one it exits with zero and writes all result files, creating the output folder if needed.",
  ["inputs", "configurations"], "all kinds of unusable paths; existing and missing output folders",
  "The tests do not run the program.",
  ["apps/calibrate/src/calibrate.cpp", S+"McCalib.cpp"], ["main", "Calibration::Calibration"])
p("C26", "Pose conversions form one consistent algebra of rigid motions",
  "Converting a rigid motion between its matrix, rotation-vector, vector and quaternion forms and back gives the same motion; inverting twice gives the motion back, applying a motion to points agrees with multiplying by its matrix, and the stored poses of cameras, boards and observations read back as the motion that was set, in every representation.",
  ["inputs"], "all elements and products of the rotation group of the cube combined with integer translations, and generic motions",
  "The tests convert a few fixed rotations and one vector.",
  [S+"geometrytools.cpp", S+"BoardObs.cpp", S+"Object3DObs.cpp", S+"CameraGroup.cpp", S+"Object3D.cpp", S+"CameraGroupObs.cpp"],
  ["RVecT2Proj", "RT2Proj", "Proj2RT", "ProjToVec", "vectorProj", "invertRvecT", "transform3DPts", "convertRotationMatrixToQuaternion", "convertQuaternionToRotationMatrix"])
p("C27", "The analysis scripts show the results which were saved",
  "Run on the results of a calibration with one camera group and one object, the analysis scripts in python_utils draw every camera at its saved pose and in its own shape, the boards of the object as they were saved, the object at its saved poses (every k-th of them, starting from the first), the mean error of every frame in the order of the frames, and the camera poses and intrinsics of the ground truth with the errors between both; each figure is saved next to the results, the combined analysis shows what its parts show, and results or a ground truth which cannot be compared (more than one group, another number of cameras) are refused with a non-zero exit status.",
  ["inputs", "configurations"], "results of calibrations of all visibility patterns with one object, 1 to 4 cameras, up to 52 frames",
  "The scripts have no tests.",
  ["python_utils/"+n+".py" for n in ("post_calibration_analysis", "compute_error_statistic", "compute_pose_error_vs_gt", "display_calib_cameras", "display_calib_object", "display_cam_obj_pose", "utils")],
  ["plot_camera", "add_camera_to_subplot", "display_calib_cameras", "display_calib_object", "display_cam_obj_pose", "compute_error_statistic", "compute_errors", "read_est_results", "read_gt_results", "post_calibration_analysis"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as o:
    for x in P:
        o.write(json.dumps(x) + "\n")
print(len(P))
