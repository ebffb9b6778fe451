INIT Init
NEXT Next
CONSTANTS Depth = 2
          Each = 0
          DottedWords = {"verif_app.a", "verif_app.b", "verif_app.c", "nodot", "static", "modules", "x", "reactpy", "here.css", "no.css", "statics", "m.js", "d", "y", "secret", "..", "page", "pages", "aab", "y.z", "yxz", "a"}
INVARIANTS Sound
CHECK_DEADLOCK FALSE
