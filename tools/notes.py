DEFAULT = ("Bounded: every explored history (bytes, reader behaviour, API script) is run in the real decoder in four feature "
           "configurations and each observed result is judged by TLC against the explicit specification. Trusts TLC, the "
           "specification's reading of T.81 and of the public documentation, and the encoder that makes the histories.")
TECH = {}
