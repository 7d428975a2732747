// Replays a list of public calibration stages on the real McCalib::Calibration
// and writes, after every stage, the observable state of the system as one
// JSON line.  usage: drv_stages CONFIG.yml TRACE.ndjson op [op ...]
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>

#include "dump.hpp"

using namespace McCalib;
using vj::Arr;
using vj::Obj;

// moves everything that refinement may move, except the references
static void perturb(Calibration &c, int seed, double size) {
  std::mt19937 g(seed);
  std::uniform_real_distribution<double> u(-size, size);
  auto jiggle = [&](std::array<double, 6> &p) {
    for (auto &v : p)
      v += u(g);
  };
  for (auto &it : c.object_3d_) {
    for (auto &p : it.second->relative_board_pose_)
      if (p.first != it.second->ref_board_id_)
        jiggle(p.second);
    it.second->updateObjectPts();
  }
  for (auto &it : c.object_observations_)
    jiggle(it.second->pose_);
  for (auto &it : c.cam_group_)
    for (auto &p : it.second->relative_camera_pose_)
      if (p.first != it.second->id_ref_cam_)
        jiggle(p.second);
  for (auto &it : c.cams_group_obs_) {
    for (auto &p : it.second->object_pose_)
      jiggle(p.second);
    it.second->updateObjObsPose();
  }
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 64;
  std::ofstream out(argv[2]);
  Calibration c{std::filesystem::path(argv[1])};
  bool pts = true;
#define OP(name) {#name, [&] { c.name(); }}
  const std::map<std::string, std::function<void()>> ops = {
      OP(boardExtraction),
      OP(loadDetectedKeypoints),
      OP(initIntrinsic),
      OP(initializeCalibrationAllCam),
      OP(estimatePoseAllBoards),
      OP(refineIntrinsicAndPoseAllCam),
      OP(calibrate3DObjects),
      OP(computeBoardsPairPose),
      {"initInterBoardTransform",
       [&] { c.initInterTransform(c.board_pose_pairs_, c.inter_board_transform_); }},
      OP(initInterBoardsGraph),
      OP(init3DObjects),
      OP(initAll3DObjectObs),
      OP(estimatePoseAllObjects),
      OP(refineAllObject3D),
      OP(calibrateCameraGroup),
      OP(computeCamerasPairPose),
      {"initInterCameraTransform",
       [&] { c.initInterTransform(c.camera_pose_pairs_, c.inter_camera_transform_); }},
      OP(initInterCamerasGraph),
      OP(initCameraGroup),
      OP(initAllCameraGroupObs),
      OP(computeAllObjPoseInCameraGroup),
      OP(refineAllCameraGroup),
      OP(refineAllCameraGroupAndObjects),
      OP(refineAllCameraGroupAndObjectsAndIntrinsic),
      OP(merge3DObjects),
      OP(computeObjectsPairPose),
      {"initInterObjectTransform",
       [&] { c.initInterTransform(c.object_pose_pairs_, c.inter_object_transform_); }},
      OP(initInterObjectsGraph),
      OP(mergeObjects),
      OP(mergeAllObjectObs),
      OP(findPairObjectForNonOverlap),
      OP(findPoseNoOverlapAllCamGroup),
      OP(initInterCamGroupGraph),
      OP(mergeCameraGroup),
      OP(mergeAllCameraGroupObs),
      OP(reproErrorAllCamGroup),
      OP(saveCamerasParams),
      OP(save3DObj),
      OP(save3DObjPose),
      OP(saveReprojectionErrorToFile),
      OP(saveDetectedKeypoints),
      OP(saveDetectionImagesAllCam),
      OP(saveReprojectionImagesAllCam),
  };
  for (int i = 3; i < argc; i++) {
    std::string op = argv[i];
    bool quiet = false;
    if (op[0] == '-') { // run the stage without dumping the state
      quiet = true;
      op = op.substr(1);
    }
    if (op.rfind("perturb:", 0) == 0) { // perturb:SEED:SIZE
      const auto k = op.find(':', 8);
      perturb(c, std::stoi(op.substr(8, k - 8)), std::stod(op.substr(k + 1)));
      out << dump(c, "perturb", pts) << "\n" << std::flush;
      continue;
    }
    auto it = ops.find(op);
    if (it == ops.end()) {
      std::cerr << "unknown op " << op << "\n";
      return 64;
    }
    out << Obj().t("begin", op).end() << "\n" << std::flush;
    it->second();
    if (!quiet)
      out << dump(c, op, pts) << "\n" << std::flush;
  }
  double avg = 0;
  if (!c.cam_group_.empty() && !c.cams_group_obs_.empty())
    avg = c.computeAvgReprojectionError();
  out << Obj().t("op", "done").n("avg", avg).end() << "\n";
  return 0;
}
