----------------------------- MODULE HttpFaults -----------------------------
EXTENDS Sequences
(* Answers of the server with an error status, whatever comes with them: an *)
(* HTML page, nothing, or even the complete archive.                        *)
HttpFaults == {"http" \o c \o "-" \o b :
                 c \in {"400", "401", "403", "404", "410", "429", "500", "502", "503", "504"}, b \in {"html", "none", "archive"}}
(* Answers without the archive whose status is not an error to HTTP.        *)
OddAnswers == {"http202-none", "http204-none", "http206-none", "http304-none", "http304-html"}
=============================================================================
