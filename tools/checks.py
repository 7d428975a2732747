add("C09", T + "; TLC-generated histories replayed on the real Graph class, answers validated by TLC",
    "Exhaustive over all graphs on 4 vertices with two weights (each replayed on the real class with every query) and "
    "random longer histories; assumes positive integer multiples of a unit as weights.")
add("C01", T + "; TLC-enumerated configurations given to the real constructor, the resulting rig validated by TLC",
    "Every combination of list presence, selection and counts (1-4 boards, 1-4 cameras) with random scalar values; "
    "constructor observed through its public fields.")
add("C26", T + "; TLC-simulated programs over motions executed by the real conversions and stored poses, every "
    "read-back validated by TLC", "Random programs of up to 12 (thorough 20) steps over 17 representations, 24 cube "
    "rotations and generic conjugates of them; the algebra's laws are checked exhaustively on the specification.")
add("C24", T + "; all measurement sequences enumerated by TLC, the real averages validated by TLC",
    "All sequences up to length 5 (thorough 7) over 3 generic, 4 axial and 4 half-turn values, both modes; every "
    "order of every multiset, alternative representations of every rotation.")
CAL = ("Visibility patterns and features drawn by TLC from the specification (invariants checked exhaustively on small "
       "rigs); each becomes a rigid world, the real stages run on it from a key point file, and TLC validates the state "
       "after every stage. Sampled, not exhaustive, on the implementation side; assumes well-conditioned views. ")
def cal(pid, what, note=""):
    add(pid, T + "; real calibration stages run on worlds built from TLC's scenarios, every state they leave validated by TLC: " + what, CAL + note)
cal("C06", "validity, kept corners, poses", "Full, partial, hopeless, outlier-laden observations, both camera models.")
cal("C07", "objects and their corner indexing at every stage")
cal("C08", "board pairs, averages, chained paths", "Boards lie per image so that every path and every measurement has its own value.")
cal("C10", "all object observations and every list of them, at every stage")
cal("C11", "camera groups")
cal("C12", "camera pairs, averages, chained paths", "Cameras lie per view so that every path has its own value.")
cal("C13", "object poses in groups")
cal("C14", "object pairs and relative group poses", "0-9 common frames per pair, both methods, arbitrary orientation of the groups.")
cal("C15", "merges of groups", "2-4 groups whose relations disagree, so that every path has its own value.")
cal("C16", "merges of objects", "Boards move between frames so that every path has its own value.")
cal("C17", "intrinsics given, kept, refined, estimated, written and read again")
cal("C18", "references, fit and exact solution after every refinement", "Exact, perturbed and noisy states.")
FIL = ("Files read by an independent parser, abstracted to identities and truth values, judged by TLC against the state the "
       "program was left in (its own dump) and, for whole runs, against the true world. Sampled scenarios drawn by TLC. ")
def files(pid, what, note=""):
    add(pid, T + "; real runs on worlds built from TLC's scenarios, their output files validated by TLC: " + what, FIL + note)
files("C19", "camera file")
files("C20", "object and pose files")
files("C21", "error log")
files("C22", "whole program against the truth", "Exact data, every kind of visibility; given, perturbed and estimated intrinsics.")
files("C23", "annotated images and untouched inputs", "Plain coloured input images; points checked per pixel neighbourhood.")
add("C25", T + "; every start condition enumerated by TLC and tried on the real program, its exit status and files validated by TLC",
    "All combinations of 14 paths, 6 conditions of the output folder and 2 camera file names.")
DET = ("Boards made by the real generator, photographed by a renderer of our own and detected by the real detection, whose "
       "calls of the marker detector are observed (and, for C03 and C04, delayed and filtered) by interposition. ")
add("C02", T + "; boards, shapes and selections enumerated by TLC, generated and detected for real, identities validated by TLC",
    DET + "Every set of up to 3 boards over 4 shapes and every selection in the specification; sampled in the implementation.")
add("C03", T + "; the thread model checked exhaustively (and its unlocked variant refuted), real runs with forced schedules "
    "validated by TLC", DET + "2 threads (thorough 3) in the model; real runs with random delays and rendezvous of up to 8 threads.")
add("C04", T + "; subsets of corners and fractions drawn by TLC, left over from real detections, the decisions validated by TLC",
    DET + "Subsets of the corners of real detections, including lines, near-thresholds and every fraction.")
add("C05", T + "; databases drawn by TLC, saved and loaded by the real program, judged by TLC",
    "Sparse frames, missing cameras, odd image paths; the file is also read by an independent parser.")
add("C27", T + "; the real scripts run on results of calibrations drawn by TLC, with recording stand-ins for cv2 and matplotlib, what they show judged by TLC",
    "Neither OpenCV nor matplotlib for Python is installed: stand-ins read OpenCV's YAML and record what is drawn, so rendering itself is not covered. One object, cameras numbered without gaps.")
