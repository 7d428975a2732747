----------------------------- MODULE MCProgram -----------------------------
(***************************************************************************)
(* The program as seen from a shell: started with a path and an output     *)
(* folder in some condition, it refuses or works and writes its results.   *)
(* TLC enumerates every start; each is then tried on the real program.     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
Exts == {".yml", ".yaml", ".txt", ".YML", "", ".yml.bak", ".yml~"}
Paths == {[exists |-> FALSE, file |-> FALSE, ext |-> e] : e \in Exts} \cup
         {[exists |-> TRUE, file |-> TRUE, ext |-> e] : e \in Exts}
Outs == {"there", "old", "missing", "deep", "slash", "deepslash"}
Names == {"", "my_cams.yml"}
VARIABLES path, out, camfile, status, folder, files
vars == <<path, out, camfile, status, folder, files>>
Usable == path.exists /\ path.file /\ path.ext = ".yml"
CamFile == IF camfile = "" THEN "calibrated_cameras_data.yml" ELSE camfile
All == {CamFile, "calibrated_objects_data.yml", "calibrated_objects_pose_data.yml", "reprojection_error_data.yml", "detected_keypoints_data.yml"}
Init == /\ path \in Paths /\ out \in Outs /\ camfile \in Names /\ status = "started"
        /\ folder = (out \in {"there", "old"}) /\ files = {}
Refuse == status = "started" /\ ~Usable /\ status' = "failed" /\ UNCHANGED <<path, out, camfile, folder, files>>
Accept == status = "started" /\ Usable /\ status' = "running" /\ folder' = TRUE /\ UNCHANGED <<path, out, camfile, files>>
Write(f) == status = "running" /\ folder /\ f \notin files /\ files' = files \cup {f} /\ UNCHANGED <<path, out, camfile, status, folder>>
Exit == status = "running" /\ files = All /\ status' = "ok" /\ UNCHANGED <<path, out, camfile, folder, files>>
Next == Refuse \/ Accept \/ (\E f \in All : Write(f)) \/ Exit
Spec == Init /\ [][Next]_vars
RefusedLeavesNothing == status = "failed" => files = {} /\ ~Usable
DoneIsComplete == status = "ok" => files = All /\ Usable /\ folder
Ends == status \in {"started", "running"} => ENABLED Next
Out == status = "started" => PrintT(<<"RUN", ToJson([path |-> path, out |-> out, camfile |-> camfile])>>)
=============================================================================
