// Builds the rig for each configuration file and writes what it contains.
// usage: drv_config OUT.ndjson CONFIG...
#include <fstream>
#include <iostream>

#include "McCalib.hpp"
#include "json.hpp"

int main(int argc, char **argv) {
  std::ofstream out(argv[1]);
  for (int i = 2; i < argc; i++) {
    out << "{\"begin\":" << vj::str(argv[i]) << "}\n" << std::flush;
    McCalib::Calibration c{std::filesystem::path(argv[i])};
    vj::Arr cams, boards;
    for (auto &it : c.cams_)
      cams.raw(vj::Arr().n(it.second->cam_idx_).n(it.second->distortion_model_)
                   .end());
    for (auto &it : c.boards_3d_) {
      auto &b = *it.second;
      auto sz = b.charuco_board_->getChessboardSize();
      boards.raw(vj::Obj().n("id", b.board_id_).n("key", it.first)
                     .n("nx", b.nb_x_square_).n("ny", b.nb_y_square_)
                     .n("size", b.square_size_).n("nb_pts", b.nb_pts_)
                     .raw("pattern", vj::Arr().n(sz.width).n(sz.height).end())
                     .raw("markers", vj::nums(b.charuco_board_->ids))
                     .raw("corners", vj::pts3(b.pts_3d_)).end());
    }
    vj::Obj o;
    o.n("refine", static_cast<int>(c.refine_corner_)).n("minperc", c.min_perc_pts_)
        .n("quat", static_cast<int>(c.quaternion_averaging_))
        .n("ransac", c.ransac_thresh_).n("iters", c.nb_iterations_)
        .n("he", c.he_approach_).n("fix", c.fix_intrinsic_)
        .n("repro", c.save_repro_).n("detect", c.save_detect_)
        .t("root", c.root_path_.string()).t("prefix", c.cam_prefix_)
        .t("params", c.cam_params_path_.string())
        .t("keys", c.keypoints_path_.string())
        .t("outname", c.camera_params_file_name_.string())
        .t("save", c.save_path_.string());
    out << vj::Obj().n("nb_camera", c.nb_camera_).n("nb_board", c.nb_board_)
               .raw("cams", cams.end()).raw("boards", boards.end())
               .raw("opts", o.end()).end()
        << "\n" << std::flush;
  }
  return 0;
}
