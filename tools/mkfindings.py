"""Regenerates known_findings.json (no open findings; every defect found was repaired)."""
import json
import os
FIXED = [
 ("C04", "a4894ec", "MAD kept block size and stride in module globals: concurrent calls with other block sizes disturbed each other"),
 ("C07", "3cee388", "MAD normalised the caller's weights array in place"),
 ("C09", "af58b85", "native statistics functions read and wrote out of bounds on non-square and strided images"),
 ("C08", "6137445", "native statistics functions called exit() when an allocation failed (and leaked buffers, C10)"),
 ("C01", "8c0f6d6", "batch reused no-reference results across different ROIs and image sizes"),
 ("C02", "2f0587c", "a failed recalculation left rows of two calculations mixed"),
 ("C11", "c31aed3", "batch export without results emptied an existing file before raising"),
 ("C11", "57604a0", "export_results overwrote missing scores with a string and left their rows out"),
 ("C11", "ab31356", "export_metadata truncated the existing file before a failing metric raised"),
 ("C11", "2d04998", "export_results emptied an existing file before failing on an invalid metric"),
 ("C10", "193cf9c", "export_image left its figure open"),
 ("C12", "11db7fa", "figures were saved after show() had closed them: empty pictures"),
 ("C12", "cf27135", "CNR centre visualisation always failed for lack of a region type"),
 ("C01", "c0e581e", "SNR scored grayscale images as a tuple and had no name, unusable in batches and exports"),
 ("C06", "b7b6f38", "a failed SNR/CNR score replaced the remembered parameters"),
 ("C05", "6c49a74", "SNR/CNR score remembered loading options across calls"),
 ("C17", "7e7167f", "interactive selectors shared module globals"),
 ("C17", "18db239", "radius slider did not reach the saved value"),
 ("C17", "30067ca", "SNR selector could not be opened again after a save"),
 ("C17", "9e2d97a", "reopened CNR selector with given starting points failed to draw"),
 ("C13", "95944b8", "tools depended on the order of glob"),
 ("C14", "89b8314", "copying into an existing folder failed on rerun"),
 ("C14", "5deb082", "truncated copies of a crashed run were kept"),
 ("C14", "4f15882", "missing optional copy argument raised IndexError"),
 ("C15", "56ed6af", "cropping a non-square volume mixed up axes"),
 ("C15", "0612d39", "combined stack was transposed and misnamed"),
 ("C15", "b9be0a1", "end of the output volume lost on a full disk without an error"),
 ("C03", "bb4ca89", "a failing read returned uninitialised voxels as image (found by C05 run 146)"),
 ("C03", "3d3031d", "an image loaded from a double precision NIfTI file changed when the file was rewritten later"),
 ("C15", "c0b8cbd", "combine_stack wrote a short volume when listing the folder failed midway"),
 ("C14", "3cc74b3", "write_to_csv wrote an incomplete pair list when listing a folder failed"),
 ("C15", "e57ceab", "a failing read made the volume tools write uninitialised voxels"),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{here}/known_findings.json", "w") as f:
    json.dump({"findings": [{"property": p, "status": "fixed", "commit": c, "what": w, "entry": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]}, f, indent=1)
    f.write("\n")
