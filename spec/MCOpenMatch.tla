---- MODULE MCOpenMatch ----
EXTENDS OpenMatch
NoFns == <<>>
OneFn == "f" :> "ok"
ErrFn == "f" :> "err"
TwoFns == ("f" :> "ok") @@ ("g" :> "err")
====
