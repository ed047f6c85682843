----------------------------- MODULE CplxModel ------------------------------
(* Field laws on a grid of Gaussian rationals, identities of the enclosures, *)
(* and histories of compound assignments handed to the replayer.             *)
EXTENDS Cplx
VARIABLES z, w, v
Re0 == {"0", "1", "-1/2", "3"}
Im0 == {"0", "2", "-1/3"}
G == Re0 \X Im0
Init == z \in G /\ w \in G /\ v = <<"-2", "1/2">>
Next == FALSE /\ UNCHANGED <<z, w, v>>
Z == <<"0", "0">>
Meet(a, b) == IMeet(a[1], b[1]) /\ IMeet(a[2], b[2])
Laws ==
  /\ CEq(CAdd(z, w), CAdd(w, z)) /\ CEq(CMul(z, w), CMul(w, z)) /\ CEq(CMul(z, CMul(w, v)), CMul(CMul(z, w), v))
  /\ CEq(CMul(z, CAdd(w, v)), CAdd(CMul(z, w), CMul(z, v)))
  /\ ~CEq(w, Z) => CEq(CMul(CDiv(z, w), w), z) /\ CEq(CInv(CInv(w)), w)
  /\ REq(CMod2(CMul(z, w)), RMul(CMod2(z), CMod2(w))) /\ CEq(CConj(CMul(z, w)), CMul(CConj(z), CConj(w)))
  /\ Meet(KExp(CAdd(z, w)), KMul(KExp(z), KExp(w)))
  /\ Meet(KSin(CAdd(z, w)), KAdd(KMul(KSin(z), KCos(w)), KMul(KCos(z), KSin(w))))
  /\ Meet(KAdd(KMul(KSin(z), KSin(z)), KMul(KCos(z), KCos(z))), KPt(<<"1", "0">>))
  /\ Meet(KExp(CMul(<<"0", "1">>, z)), KAdd(KCos(z), KMul(KPt(<<"0", "1">>), KSin(z))))
  /\ ~CEq(z, Z) => IContains(IExp(IScale(2, KLn(z)[1])), CMod2(z)) /\ LET t == KLn(z)[2] n == SqrtE(CMod2(z)) IN
        IMeet(IMul(n, ICos(t)), Pt(z[1])) /\ IMeet(IMul(n, ISin(t)), Pt(z[2]))
=============================================================================
