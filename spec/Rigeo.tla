------------------------------- MODULE Rigeo -------------------------------
(* The whole state machine: every public operation of the library as a transition of the heap.       *)
EXTENDS Args
Step(hp, e) ==
  CASE e.op \in ParOps -> ParStep(hp, e)
    [] e.op \in ShapeOps -> ShapeStep(hp, e)
    [] e.op \in BodyOps -> BodyStep(hp, e)
    [] e.op \in DynOps -> DynStep(hp, e)
    [] e.op \in DdOps -> DdStep(hp, e)
    [] e.op \in RndOps -> RndStep(hp, e)
    [] e.op \in OptOps -> OptStep(hp, e)
    [] e.op \in MomOps -> MomStep(hp, e)
    [] e.op \in RealOps -> RealStep(hp, e)
    [] e.op \in ArgOps -> ArgStep(hp, e)
    [] OTHER -> Res(hp, {"operation unknown to the specification: " \o e.op})
=============================================================================
