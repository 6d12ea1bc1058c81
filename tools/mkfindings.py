"""Rewrite known_findings.json: defects repaired by fix: commits, and open ones."""
import json, os
FIXED = [
    ("C09", "5ff03fc", "a manifest given as a file object was not decoded"),
    ("C07", "d013201", "write_file_or_remove wrote under the final name: a killed process left a truncated file trusted later"),
    ("C07", "dd8e6a1", "cached patch versions were written in place and could be left truncated"),
    ("C12", "dd8e6a1", "a truncated cached patch version was trusted"),
    ("C03", "51034ca", "patch(None) raised on an empty storage"),
    ("C06", "dd679c6", "a list of languages selected no localized file"),
    ("C05", "1823cd4", "paths of link entries, never downloaded, were reported"),
    ("C02", "e839b97", "elements of several release elements were not merged by decreasing version"),
    ("C04", "d9ae898", "fetch_latest_update compared with, or recorded, the wrong release"),
    ("C05", "e08d7b5", "files of an unexpected size left by earlier operations were trusted"),
    ("C22", "b6c9aa8", "export without --from argument crashed instead of being refused"),
    ("C22", "1ccf415", "the previous patch of the oldest patch was not refused"),
    ("C30", "faba331", "--patchline was ignored with the default storage"),
    ("C25", "71c588f", "hashes-guess could not load a game or client component"),
    ("C10", "22c7c0c", "empty RADS files sharing their offset with another file could not be extracted"),
    ("C11", "f9256d1", "languages given as strings were refused by RADS solutions"),
    ("C11", "6c5dd93", "a solution manifest cut in its last dependency list was accepted"),
    ("C16", "5442a0b", "files moved to another path were linked to the previous patch, and files of version 1 archives were always considered unchanged"),
    ("C16", "8402682", "links left by a previous export were not updated"),
    ("C17", "9041312", "the cdragon directory was listed as an exported file"),
    ("C15", "0a781f2", "emptied parents of the output directory were removed"),
    ("C17", "f1291da", "an outdated list of links was kept, lists could be truncated"),
    ("C19", "713c43c", "invalid data aborted the export, errors when writing images were ignored, stale output of textures was kept"),
    ("C19", "7f03889", "plain files with an invalid converted path aborted the export"),
    ("C19", "1ac91be", "invalid numbers in an atlas aborted the export"),
    ("C28", "6a4b508", "submesh names with path separators were written out of the directory of the mesh"),
    ("C28", "4d95747", "a stray slash in faces of OBJ files"),
    ("C19", "57cc49f", "empty directories left by an aborted export aborted the next ones when a link was to be created there"),
    ("C19", "9409680", "a file in place of the directory of a mesh aborted the export"),
    ("C13", "43adfad", "an entry with subchunks outside of the subchunk table raised an unexpected error"),
    ("C24", "4761f77", "a failed save truncated the hash list"),
    ("C23", "f2374b1", "searching for LCU hashes was aborted by redirections, subchunks and JSON files with a single value"),
    ("C23", "b27d6b8", "guess_patterns was aborted by the paths it found"),
    ("C23", "66b83cb", "percent signs in paths aborted guessing methods"),
    ("C25", "94d13a1", "skin numbers were only substituted by different ones in a path"),
    ("C25", "e472eb9", "directories of paths found since the first use of the list of directories were ignored"),
    ("C25", "54ad19b", "relative paths mentioned in LCU files were not found"),
    ("C25", "0b43cae", "names which are not ASCII in preload and shader files aborted the search for hashes"),
    ("C26", "6dd46ea", "files cut inside their last text were accepted"),
    ("C27", "0ebd9bf", "a font configuration which is not UTF-8 aborted the decoding"),
    ("C27", "815b26f", "the last byte of an unterminated text was lost"),
    ("C28", "1f1eb47", "champion skin information cut inside its last text was accepted"),
    ("C25", "384523e", "files directly in plugins/ aborted the substitution of plugins"),
    ("C29", "eb2a3e8", "TFT and Arena data was generated with the formats of another patch"),
    ("C29", "9afc6fa", "TFT data without sets aborted the generation"),
    ("C29", "56914c9", "first and last translations of font configurations were lost"),
    ("C29", "a3d282c", "TFT data shared by several sets was translated twice"),
    ("C29", "a96a69f", "former fields of champion icons were never used"),
    ("C29", "bdd4f45", "truncated TFT and Arena data files were left"),
    ("C27", "ffcad57", "text which is not ASCII could not be converted to JSON with an ASCII locale"),
    ("C31", "430267f", "textures with smaller levels but cut were converted with bytes of the header"),
    ("C07", "80f54c4", "latest.timestamp was left outdated after an interrupted update"),
    ("C19", "d14c958", "an export with links was aborted by a directory whose name is too long, when only some of its files changed"),
    ("C19", "047f881", "the file of an earlier export was kept in place of an archive entry which cannot be read"),
    ("C26", "37fa4ee", "a hashed path was not found in sets of the numbers it is equal to"),
]
OPEN = []
if __name__ == "__main__":
    out = {"findings": OPEN, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "known_findings.json"), "w") as f:
        json.dump(out, f, indent=1); f.write("\n")
