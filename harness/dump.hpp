// The observable state of a McCalib::Calibration as one JSON line.
#pragma once
#include <map>
#include <string>
#include "McCalib.hpp"
#include "json.hpp"

using namespace McCalib;
using vj::Arr;
using vj::Obj;

// pointer -> index in a global table; -1 if it is not registered there
template <class M, class P> static int indexOf(const M &m, const P &p) {
  for (const auto &it : m)
    if (it.second == p)
      return it.first;
  return -1;
}

template <class M, class G>
static std::string refs(const M &m, const G &global) {
  Arr a;
  for (const auto &it : m) {
    auto p = it.second.lock();
    a.n(p ? indexOf(global, p) : -2);
  }
  return a.end();
}

template <class M> static std::string keys(const M &m) {
  Arr a;
  for (const auto &it : m)
    a.n(it.first);
  return a.end();
}

static std::string comps(Graph &g) {
  Arr a;
  for (const auto &c : g.connectedComponents())
    a.raw(vj::nums(c));
  return a.end();
}

static std::string pairPoses(
    const std::map<std::pair<int, int>, std::vector<cv::Mat>> &m) {
  Arr a;
  for (const auto &it : m) {
    Arr ps;
    for (const auto &p : it.second)
      ps.raw(vj::mat(p));
    a.raw(Obj().n("a", it.first.first).n("b", it.first.second)
              .raw("poses", ps.end()).end());
  }
  return a.end();
}

static std::string pairPose(const std::map<std::pair<int, int>, cv::Mat> &m) {
  Arr a;
  for (const auto &it : m)
    a.raw(Obj().n("a", it.first.first).n("b", it.first.second)
              .raw("pose", vj::mat(it.second)).end());
  return a.end();
}

static std::string dump(Calibration &c, const std::string &op, bool pts) {
  Obj o;
  o.t("op", op);
  {
    Arr a;
    for (auto &it : c.cams_) {
      auto &k = *it.second;
      a.raw(Obj().n("id", it.first).n("cam_idx", k.cam_idx_)
                .n("model", k.distortion_model_)
                .n("w", k.im_cols_).n("h", k.im_rows_)
                .raw("K", vj::mat(k.getCameraMat()))
                .raw("D", vj::mat(k.getDistortionVectorVector()))
                .raw("bobs", refs(k.board_observations_, c.board_observations_))
                .raw("vis_boards", vj::nums(k.vis_board_idx_))
                .raw("frames", keys(k.frames_))
                .raw("oobs", refs(k.object_observations_, c.object_observations_))
                .raw("vis_objects", vj::nums(k.vis_object_idx_)).end());
    }
    o.raw("cams", a.end());
  }
  {
    Arr a;
    for (auto &it : c.boards_3d_) {
      auto &b = *it.second;
      Obj q;
      q.n("id", it.first).n("board_id", b.board_id_)
          .n("nx", b.nb_x_square_).n("ny", b.nb_y_square_)
          .n("size", b.square_size_).n("nb_pts", b.nb_pts_)
          .raw("bobs", refs(b.board_observations_, c.board_observations_))
          .raw("frames", keys(b.frames_));
      if (pts)
        q.raw("pts3", vj::pts3(b.pts_3d_));
      a.raw(q.end());
    }
    o.raw("boards", a.end());
  }
  {
    Arr a;
    for (auto &it : c.board_observations_) {
      auto &b = *it.second;
      Obj q;
      q.n("id", it.first).n("cam", b.camera_id_).n("frame", b.frame_id_)
          .n("board", b.board_id_).n("valid", b.valid_)
          .raw("corners", vj::nums(b.charuco_id_))
          .raw("pose", vj::nums(b.pose_));
      if (pts)
        q.raw("uv", vj::pts2(b.pts_2d_));
      else
        q.n("npts", b.pts_2d_.size());
      a.raw(q.end());
    }
    o.raw("bobs", a.end());
  }
  {
    Arr a;
    for (auto &it : c.cams_obs_) {
      auto &k = *it.second;
      a.raw(Obj().n("cam", it.first.first).n("frame", it.first.second)
                .n("cam_idx", k.cam_idx_)
                .raw("boards", vj::nums(k.board_idx_))
                .raw("bobs", refs(k.board_observations_, c.board_observations_))
                .raw("objects", vj::nums(k.object_idx_))
                .raw("oobs", refs(k.object_observations_, c.object_observations_))
                .end());
    }
    o.raw("cams_obs", a.end());
  }
  {
    Arr a;
    for (auto &it : c.frames_) {
      auto &f = *it.second;
      Arr paths, cobs;
      for (auto &p : f.frame_path_)
        paths.raw(Obj().n("cam", p.first).t("path", p.second.string()).end());
      for (auto &p : f.cam_obs_) {
        auto q = p.second.lock();
        int cam = -1, fr = -1;
        for (auto &z : c.cams_obs_)
          if (z.second == q) {
            cam = z.first.first;
            fr = z.first.second;
          }
        cobs.raw(Obj().n("cam", cam).n("frame", fr).end());
      }
      Arr gobs;
      for (auto &p : f.cam_group_observations_) {
        auto q = p.second.lock();
        int g = -1, fr = -1;
        for (auto &z : c.cams_group_obs_)
          if (z.second == q) {
            g = z.first.first;
            fr = z.first.second;
          }
        gobs.raw(Obj().n("group", g).n("frame", fr).end());
      }
      a.raw(Obj().n("id", it.first).n("frame_idx", f.frame_idx_)
                .raw("cams", vj::nums(f.cam_idx_))
                .raw("cobs", cobs.end())
                .raw("boards", vj::nums(f.boards_idx_))
                .raw("bobs", refs(f.board_observations_, c.board_observations_))
                .raw("objects", vj::nums(f.objects_idx_))
                .raw("oobs", refs(f.object_observations_, c.object_observations_))
                .raw("groups", vj::nums(f.cam_group_idx_))
                .raw("gobs", gobs.end())
                .raw("paths", paths.end()).end());
    }
    o.raw("frames", a.end());
  }
  o.raw("board_pairs", pairPoses(c.board_pose_pairs_));
  o.raw("inter_board", pairPose(c.inter_board_transform_));
  o.raw("board_comps", comps(c.covis_boards_graph_));
  {
    Arr a;
    for (auto &it : c.object_3d_) {
      auto &b = *it.second;
      Arr poses, map, bs;
      for (auto &p : b.relative_board_pose_)
        poses.raw(Obj().n("board", p.first)
                      .raw("pose", vj::nums(p.second)).end());
      for (auto &p : b.boards_) {
        auto q = p.second.lock();
        bs.n(q ? q->board_id_ : -1);
      }
      for (auto &p : b.pts_board_2_obj_)
        map.raw(Arr().n(p.first.first).n(p.first.second).n(p.second).end());
      Arr back;
      for (auto &p : b.pts_obj_2_board_)
        back.raw(Arr().n(p.first).n(p.second).end());
      Obj q;
      q.n("id", it.first).n("obj_id", b.obj_id_).n("ref", b.ref_board_id_)
          .raw("color", vj::nums(b.color_))
          .n("nb_boards", b.nb_boards_).n("nb_pts", b.nb_pts_)
          .raw("boards", keys(b.boards_)).raw("board_ids", bs.end())
          .raw("poses", poses.end())
          .raw("oobs", refs(b.object_observations_, c.object_observations_))
          .raw("frames", keys(b.frames_))
          .raw("map", map.end()).raw("back", back.end())
          .raw("pts3", vj::pts3(b.pts_3d_));
      a.raw(q.end());
    }
    o.raw("objects", a.end());
  }
  {
    Arr a;
    for (auto &it : c.object_observations_) {
      auto &b = *it.second;
      Obj q;
      auto op = b.object_3d_.lock();
      q.n("id", it.first).n("cam", b.camera_id_).n("frame", b.frame_id_)
          .n("obj", b.object_3d_id_)
          .n("objref", op ? indexOf(c.object_3d_, op) : -1)
          .raw("boards", vj::nums(b.board_id_))
          .raw("bobs", refs(b.board_observations_, c.board_observations_))
          .raw("pts", vj::nums(b.pts_id_))
          .raw("uv", vj::pts2(b.pts_2d_))
          .raw("pose", vj::nums(b.pose_))
          .raw("gpose", vj::nums(b.group_pose_));
      a.raw(q.end());
    }
    o.raw("oobs", a.end());
  }
  o.raw("cam_pairs", pairPoses(c.camera_pose_pairs_));
  o.raw("inter_cam", pairPose(c.inter_camera_transform_));
  o.raw("cam_comps", comps(c.covis_camera_graph_));
  {
    Arr a;
    for (auto &it : c.cam_group_) {
      auto &g = *it.second;
      Arr poses;
      for (auto &p : g.relative_camera_pose_)
        poses.raw(Obj().n("cam", p.first)
                      .raw("pose", vj::nums(p.second)).end());
      a.raw(Obj().n("id", it.first).n("group_idx", g.cam_group_idx_)
                .n("ref", g.id_ref_cam_)
                .raw("cams", keys(g.cameras_))
                .raw("cam_idx", vj::nums(g.cam_idx))
                .raw("poses", poses.end())
                .raw("frames", keys(g.frames_))
                .raw("oobs", refs(g.object_observations_, c.object_observations_))
                .end());
    }
    o.raw("groups", a.end());
  }
  {
    Arr a;
    for (auto &it : c.cams_group_obs_) {
      auto &g = *it.second;
      Arr poses;
      for (auto &p : g.object_pose_)
        poses.raw(Obj().n("obj", p.first)
                      .raw("pose", vj::nums(p.second)).end());
      a.raw(Obj().n("group", it.first.first).n("frame", it.first.second)
                .n("group_idx", g.cam_group_idx_)
                .raw("objects", vj::nums(g.object_idx_))
                .raw("oobs", refs(g.object_observations_, c.object_observations_))
                .raw("poses", poses.end()).end());
    }
    o.raw("gobs", a.end());
  }
  {
    Arr a;
    for (auto &it : c.no_overlap_object_pair_)
      a.raw(Obj().n("a", it.first.first).n("b", it.first.second)
                .n("o1", it.second.first).n("o2", it.second.second).end());
    o.raw("no_objs", a.end());
    o.raw("no_pose", pairPose(c.no_overlap_camgroup_pair_pose_));
    Arr n;
    for (auto &it : c.no_overlap__camgroup_pair_common_cnt_)
      n.raw(Obj().n("a", it.first.first).n("b", it.first.second)
                .n("n", it.second).end());
    o.raw("no_cnt", n.end());
    o.raw("no_comps", comps(c.no_overlap_camgroup_graph_));
  }
  o.raw("obj_pairs", pairPoses(c.object_pose_pairs_));
  o.raw("inter_obj", pairPose(c.inter_object_transform_));
  o.raw("obj_comps", comps(c.covis_objects_graph_));
  return o.end();
}

