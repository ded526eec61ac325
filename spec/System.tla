-------------------------------- MODULE System -------------------------------
(* Everything together: the store and the parts built on it. *)
EXTENDS StoreCore, Typed, Sizes, Routes, Providers, Sections, Files

Exec(st, c) ==
  CASE c.op = "tset"     -> DoTSet(st, c)
    [] c.op = "typed"    -> DoTyped(st, c)
    [] c.op = "tcontent" -> DoTContent(st, c)
    [] c.op = "size"     -> DoSize(st, c)
    [] c.op = "route"    -> DoRoute(st, c)
    [] c.op = "prov"     -> DoProv(st, c)
    [] c.op = "section"  -> DoSection(st, c)
    [] c.op = "fput"     -> DoFPut(st, c)
    [] c.op = "fbad"     -> DoFBad(st, c)
    [] c.op = "fdel"     -> DoFDel(st, c)
    [] c.op = "fload"    -> DoFLoad(st, c)
    [] c.op = "fsave"    -> DoFSave(st, c)
    [] c.op = "fcontent" -> DoFContent(st, c)
    [] c.op = "cdec"     -> DoCDec(st, c)
    [] c.op = "cenc"     -> DoCEnc(st, c)
    [] OTHER -> Call(st, c)
=============================================================================
