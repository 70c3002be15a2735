------------------------------- MODULE DuckChars -------------------------------
(* Tables: how one byte is printed canonically, and the double-underscore aliases of the keywords. *)
EXTENDS TLC

PrintChar == <<"%00", "%01", "%02", "%03", "%04", "%05", "%06", "%07", "%08", "%09", "%0a", "%0b", "%0c", "%0d", "%0e", "%0f", "%10", "%11", "%12", "%13", "%14", "%15", "%16", "%17", "%18", "%19", "%1a", "%1b", "%1c", "%1d", "%1e", "%1f", "%20", "%21", "%22", "%23", "%24", "%25", "%26", "%27", "%28", "%29", "*", "+", "%2c", "-", "%2e", "%2f", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "%3a", "%3b", "%3c", "%3d", "%3e", "?", "%40", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "%5b", "%5c", "%5d", "%5e", "_", "%60", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "%7b", "%7c", "%7d", "%7e", "%7f", "%80", "%81", "%82", "%83", "%84", "%85", "%86", "%87", "%88", "%89", "%8a", "%8b", "%8c", "%8d", "%8e", "%8f", "%90", "%91", "%92", "%93", "%94", "%95", "%96", "%97", "%98", "%99", "%9a", "%9b", "%9c", "%9d", "%9e", "%9f", "%a0", "%a1", "%a2", "%a3", "%a4", "%a5", "%a6", "%a7", "%a8", "%a9", "%aa", "%ab", "%ac", "%ad", "%ae", "%af", "%b0", "%b1", "%b2", "%b3", "%b4", "%b5", "%b6", "%b7", "%b8", "%b9", "%ba", "%bb", "%bc", "%bd", "%be", "%bf", "%c0", "%c1", "%c2", "%c3", "%c4", "%c5", "%c6", "%c7", "%c8", "%c9", "%ca", "%cb", "%cc", "%cd", "%ce", "%cf", "%d0", "%d1", "%d2", "%d3", "%d4", "%d5", "%d6", "%d7", "%d8", "%d9", "%da", "%db", "%dc", "%dd", "%de", "%df", "%e0", "%e1", "%e2", "%e3", "%e4", "%e5", "%e6", "%e7", "%e8", "%e9", "%ea", "%eb", "%ec", "%ed", "%ee", "%ef", "%f0", "%f1", "%f2", "%f3", "%f4", "%f5", "%f6", "%f7", "%f8", "%f9", "%fa", "%fb", "%fc", "%fd", "%fe", "%ff">>   \* index: byte + 1

Keyword == (
  "nop" :> "nop" @@ "__nop" :> "nop" @@
  "funcall" :> "funcall" @@ "__funcall" :> "funcall" @@
  "apply" :> "apply" @@ "__apply" :> "apply" @@
  "var" :> "var" @@ "__var" :> "var" @@
  "global" :> "global" @@ "__global" :> "global" @@
  "setq" :> "setq" @@ "__setq" :> "setq" @@
  "not" :> "not" @@ "__not" :> "not" @@
  "*" :> "*" @@ "__*" :> "*" @@
  "/" :> "/" @@ "__/" :> "/" @@
  "+" :> "+" @@ "__+" :> "+" @@
  "-" :> "-" @@ "__-" :> "-" @@
  "while" :> "while" @@ "__while" :> "while" @@
  "if" :> "if" @@ "__if" :> "if" @@
  "when" :> "when" @@ "__when" :> "when" @@
  "unless" :> "unless" @@ "__unless" :> "unless" @@
  "=" :> "=" @@ "__=" :> "=" @@
  "<" :> "<" @@ "__<" :> "<" @@
  ">" :> ">" @@ "__>" :> ">" @@
  "defun" :> "defun" @@ "__defun" :> "defun" @@
  "lambda" :> "lambda" @@ "__lambda" :> "lambda" @@
  "defmacro" :> "defmacro" @@ "__defmacro" :> "defmacro" @@
  "declare" :> "declare" @@ "__declare" :> "declare" @@
  "noscope" :> "noscope" @@ "__noscope" :> "noscope" @@
  "comptime" :> "comptime" @@ "__comptime" :> "comptime" @@
  "quote" :> "quote" @@ "__quote" :> "quote" @@
  "list" :> "list" @@ "__list" :> "list" @@
  "vector" :> "vector" @@ "__vector" :> "vector" @@
  "make-vector" :> "make-vector" @@ "__make-vector" :> "make-vector" @@
  "get-vector-element" :> "get-vector-element" @@ "__get-vector-element" :> "get-vector-element" @@
  "set-vector-element" :> "set-vector-element" @@ "__set-vector-element" :> "set-vector-element" @@
  "cons" :> "cons" @@ "__cons" :> "cons" @@
  "car" :> "car" @@ "__car" :> "car" @@
  "cdr" :> "cdr" @@ "__cdr" :> "cdr" @@
  "set-car" :> "set-car" @@ "__set-car" :> "set-car" @@
  "set-cdr" :> "set-cdr" @@ "__set-cdr" :> "set-cdr" @@
  "null?" :> "null?" @@ "__null?" :> "null?" @@
  "type-of" :> "type-of" @@ "__type-of" :> "type-of" @@
  "make-type" :> "make-type" @@ "__make-type" :> "make-type" @@
  "make-instance" :> "make-instance" @@ "__make-instance" :> "make-instance" @@
  "composite-value" :> "composite-value" @@ "__composite-value" :> "composite-value" @@
  "composite-function" :> "composite-function" @@ "__composite-function" :> "composite-function" @@
  "set-composite-value" :> "set-composite-value" @@ "__set-composite-value" :> "set-composite-value" @@
  "set-composite-function" :> "set-composite-function" @@ "__set-composite-function" :> "set-composite-function" @@
  "make-string" :> "make-string" @@ "__make-string" :> "make-string" @@
  "concatenate" :> "concatenate" @@ "__concatenate" :> "concatenate" @@
  "substring" :> "substring" @@ "__substring" :> "substring" @@
  "length" :> "length" @@ "__length" :> "length" @@
  "symbol-string" :> "symbol-string" @@ "__symbol-string" :> "symbol-string" @@
  "symbol-id" :> "symbol-id" @@ "__symbol-id" :> "symbol-id")

Keywords == DOMAIN Keyword
================================================================================
