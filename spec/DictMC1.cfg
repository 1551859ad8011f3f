SPECIFICATION Spec
CONSTANTS
  Every = 1
  Ls = {"English", "French", "Japanese", "Korean", "ChineseSimplified", "ChineseTraditional", "Italian", "Spanish"}
  Kinds = {"upper", "title", "head", "tail", "four", "plural", "space", "before", "newline", "nul", "mark", "pair", "two", "composed", "plain", "twice", "other", "kana", "wide", "cyrillic", "joiner", "bom", "hyphen", "variant", "swap", "next", "first"}
INVARIANTS BothWays Normal Where Closed Four Emit
CHECK_DEADLOCK FALSE
