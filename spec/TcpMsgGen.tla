------------------------------ MODULE TcpMsgGen ------------------------------
(* TcpMsg with concrete payloads, for model checking and for generating the     *)
(* behaviours that are replayed into the implementation.                        *)
EXTENDS TcpMsg
PP == {<<>>, <<65>>, <<66, 67>>}
=============================================================================
