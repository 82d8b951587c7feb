"""Vocabulary of metadata values and patterns; spec/Text.tla spells each of them out in characters (tools/gen_text.py)."""
VALUES = ["x", "y", "z", "t1", "t2", "t3", "en", "EN", "de", "it's", 'q"o', "100%", "a_b", "axb", "true", "false", "e",
          "0", "1", "2", "5", "9", "10", "11", "25", "-3", "2.5", "5.0", "07", "1e1", "", "1200000", "3450000", "16777216", "16777217", "a\nb", " en", "en "]
NUMS = {"0": 0, "1": 1, "2": 2, "5": 5, "9": 9, "10": 10, "11": 11, "25": 25, "-3": -3, "2.5": 2.5, "5.0": 5, "07": 7, "1e1": 10, "3": 3, "4": 4, "6": 6, "7": 7, "8": 8, "12": 12, "20": 20, "100": 100, "1200000": 1200000, "3450000": 3450000, "16777216": 16777216, "16777217": 16777217}
PATTERNS = ["e%", "%n", "_n", "%", "a_b", "a%b", "1__%", "%'s", "100%", "EN", "x", "t_", "%e%", "_", "%1%", "Q\"_", "%n ", " %"]
SUBS = ["e", "1", "t", "EN", "%", "T", "a", "'", "1e"]
