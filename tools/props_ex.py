prop("E01", "A token moves only with its owner's key, and exactly as it is told",
  "Every transaction of the token and wallet examples is accepted by all the programs in it exactly if each transfer on the call tape reads the token as it was, calls the named wallet with the owner's public key, this token and the two wallets, that wallet holds the private key for it on its private tape, and the token is written back unchanged but for the new owner's key, and nothing else is called or emitted. The native run makes those same tapes.",
  ["inputs", "histories"], "transactions of 1 to 3 transfers of 2 objects by 2 token programs through 2 wallets with 6 amounts; each as it is and, for 10 (120) of them, with every single edit: every call dropped, doubled, swapped, or with another caller, callee, argument or result; every event dropped, doubled, changed; every byte of the private keys changed, cut or extended",
  "No test runs the example guests against a tape that is not the one their native run made.",
  ["examples/token/core-logic/src/lib.rs", "examples/token/mozakvm/src/main.rs", "examples/wallet/core-logic/src/lib.rs", "examples/wallet/mozakvm/src/main.rs", "sdk/src/mozakvm/calltape.rs", "sdk/src/mozakvm/eventtape.rs"],
  [("transfer", "examples/token/core-logic/src/lib.rs"), ("approve_signature", "examples/wallet/core-logic/src/lib.rs"), ("call_send, call_receive, event_emit", "sdk/src/mozakvm/*.rs")],
  observe=["guest accepts or refuses", "native tapes"],
  tech="exhaustive enumeration of bounded transactions and all their single edits; each is run by the real compiled guests of every program in it and compared with a model of what that program must have done",
  note="11,000 guest runs quick. Messages of another type than the callee expects are excluded (rkyv access is unchecked). The wallet a transfer asks is an argument of the call: the example leaves it to the caller which wallet program that is.")
prop("E02", "The counter, input tape and plain examples do what their tapes say",
  "The counter guest accepts exactly the tapes on which each call's object is read, then written with its number one higher or lower (as asked) and returned; the input tape guest exactly those where its tapes agree as it asserts and the whole length is there; native runs make those tapes. The examples without calls end with success on every input, but for the one that panics, which is refused.",
  ["inputs", "histories"], "the counter from 9 edge values with all sequences of up to 3 (5) calls, and with every single edit of a call, argument, result and event; input tapes of 0 to 33 bytes with every byte changed; 8 plain examples and the panic with 5 (70) inputs",
  "No test compiles the example guests offline; their own runs take one input each.",
  ["examples/counter/core-logic/src/lib.rs", "examples/inputtape/core-logic/src/lib.rs", "examples/counter/mozakvm/src/main.rs", "examples/inputtape/mozakvm/src/main.rs", "sdk/src/core/env.rs"],
  [("dispatch", "examples/counter/core-logic/src/lib.rs"), ("dispatch", "examples/inputtape/core-logic/src/lib.rs"), ("main of the plain examples", "examples/*/src/main.rs")],
  observe=["guest accepts or refuses", "native tapes"],
  tech="exhaustive enumeration of bounded tapes and all their single edits; each is run by the real compiled guest and compared with a model of what the program must have done",
  note="6,000 guest runs quick. mozak-sort, sha2 and trace are not built: their dependencies are not in this sandbox.")
