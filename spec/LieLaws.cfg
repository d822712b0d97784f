INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS FormsKnown Orthonormal Det1 FixesAxis LogExp ExpLog JacDef JacInv Jac6Def Jac6Inv JFix Log6Exp6 AdHom InvLaw AdInv
