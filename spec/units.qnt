/// Display unit systems: their symbols, their names, and how a name is found.
module units {
  /// symbols shown after the numbers; `scale` (micro) multiplies deflections only
  type Units = { key: str, force: str, length: str, moment: str, dist: str, disp: str, scale: int }
  pure val SI: Units = { key: "si", force: "kN", length: "m", moment: "kNm", dist: "kN/m", disp: "mm", scale: 1000000000 }
  pure val NMM: Units = { key: "n-mm", force: "N", length: "mm", moment: "N·mm", dist: "N/mm", disp: "mm", scale: 1000000 }
  pure val KIPFT: Units = { key: "kip-ft", force: "kip", length: "ft", moment: "kip·ft", dist: "kip/ft", disp: "in", scale: 12000000 }
  pure val KIPIN: Units = { key: "kip-in", force: "kip", length: "in", moment: "kip·in", dist: "kip/in", disp: "in", scale: 1000000 }
  pure val BARE: Units = { key: "none", force: "", length: "", moment: "", dist: "", disp: "", scale: 1000000 }
  /// a system of the user's own
  pure val OWN: Units = { key: "own", force: "MN", length: "km", moment: "MNm", dist: "MN/km", disp: "cm", scale: 100000000 }
  pure val SYSTEMS: List[Units] = [SI, NMM, KIPFT, KIPIN, BARE, OWN]
  /// every name and the system it stands for
  pure val NAMES: List[(str, int)] = [
    ("si", 0), ("kn-m", 0), ("knm", 0), ("eu", 0), ("aus", 0), ("metric", 0),
    ("si-n-mm", 1), ("n-mm", 1), ("nmm", 1),
    ("us", 2), ("us-ft", 2), ("kip-ft", 2), ("us-customary", 2),
    ("us-in", 3), ("kip-in", 3), ("none", 4), ("dimensionless", 4), ("", 4)]
  /// names which stand for nothing
  pure val UNKNOWN: List[str] = ["kn", "lbf", "si-kn-m", "mm", "imperial", "kip", "n.mm", "us.in", "furlong"]
}
