SPECIFICATION Spec
CONSTANTS Regs = {1, 2, 3}
          Forms = {"rvec", "rt", "vec6", "quat", "proj", "bobs_mat", "bobs_vec", "oobs_mat", "oobs_vec", "ogrp_mat", "ogrp_vec", "cam_mat", "cam_vec", "board_mat", "board_vec", "gobs_mat", "gobs_vec"}
          GrpId <- IdMotion
          GrpMul <- Comp
          GrpInv <- Inv
          T0 <- TZero
INVARIANT Out
CHECK_DEADLOCK FALSE
