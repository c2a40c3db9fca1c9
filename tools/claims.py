BMC = "bounded model checking of the real C sources with CBMC (SAT-decided assertions over symbolic inputs), counterexamples replayed natively"
NOTE = ("Holds for every value within the bounds written in the evidence file (unwinding assertions on); "
        "trusts cbmc, goto-cc and the environment models of lib/. ")
CLAIMS = {
    "C01": (BMC, NOTE), "C02": (BMC, NOTE), "C03": (BMC, NOTE), "C04": (BMC, NOTE),
    "C05": (BMC, NOTE), "C06": (BMC, NOTE), "C07": (BMC, NOTE), "C08": (BMC, NOTE), "C09": (BMC, NOTE),
    "C15": (BMC, NOTE),
}
NOTES = "Run ./check PROPERTY [--tier thorough]; replays/ holds the counterexamples of the last run, ./replay FILE runs one again."
