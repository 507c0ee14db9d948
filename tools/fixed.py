"""known_findings.txt: 'fixed:' lines from the fix: commits of /repo (KNOWN lines are kept as they are)."""
import pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
MAP = [  # text of the commit -> property
 ("crashed the thermal fit", "C27"), ("repeated date once in a persistent", "C27"),
 ("short first S-CCD segment", "C06"),
 ("not in ascending order", "C05"), ("state already covers", "C03"),
 ("record array", "C06"), ("pinpoint records", "C06"), ("empty slots", "C11"), ("queue is full", "C10"),
 ("S-CCD maximum in online", "C06"), ("updated rmse", "C04"), ("do not cover the inputted", "C06"),
 ("store the thermal values", "C27"), ("reorder the green", "C27"), ("flagged as fill", "C23"), ("unlabelled pixels", "C21"), ("accept spaces", "C17"), ("persistent snow", "C27"),
 ("columns of change-magnitude", "C16"), ("unreadable change-magnitude", "C16"), ("differ between the two axes", "C21"),
 ("width and height", "C17"), ("requested output path", "C21"), ("time of a pixel failure", "C18"),
 ("previous pixel for a failed", "C18"), ("fewer than 16 cores", "C18"), ("skip empty blocks", "C18"),
 ("without reconstructed", "C18"), ("size of a block", "C25"), ("floodfill ratio", "C22"), ("single-band map", "C22"),
 ("variogram of fewer than two", "C04"),
 ("row-column image of a multi", "C29"), ("date2matordinal", "C29"), ("pinpoint result of a pixel", "C28"),
 ("without a model", "C14"), ("states of any conse", "C14"), ("layout the package", "C13"),
 ("factors", "C24"), ("in the date range as empty", "C25"), ("when no rank is given", "C18"), ("observations the detection used", "C18"),
 ("Sentinel-2 images", "C25"), ("report a block without images", "C25"),
 ("constant level", "C09"), ("snow share", "C08"), ("collection 2 records without thermal values", "C08"),
 ("create the result folder", "C18"), ("signal completion under", "C18"),
 ("when tile processing is restarted", "C19"),
 ("path map of a tile in one step", "C26"), ("order all of them agree", "C26"),
 ("last pixel of a block", "C17"), ("timestamps do not accept dates", "C17"), ("maps of the S-CCD", "C17"), ("no change records", "C17"), ("records of the next pixel", "C17"),
]
out = []
f = V / "known_findings.txt"
if f.exists():
    out = [l for l in f.read_text().splitlines() if not l.startswith("fixed:")]
else:
    out = ["# KNOWN property=<id> key=<key> :: <what fails>   -- genuine defects that are recorded, not repaired",
           "# fixed: property=<id> <commit> <what failed>     -- repaired in /repo; suppresses nothing"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        m = [p for t, p in MAP if t in s]
        assert len(m) == 1, (s, m)
        out.append("fixed: property=%s %s %s" % (m[0], h, s[5:]))
f.write_text("\n".join(out) + "\n")
