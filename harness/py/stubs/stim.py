"""Stand-in for the part of Stim's Python interface that PyMatching names: models and circuits that print as
the text of a detector error model."""


class DetectorErrorModel:
    def __init__(self, text=""):
        self.text = text

    def __str__(self):
        return self.text


class Circuit:
    def __init__(self, text=""):
        self.text = text

    def detector_error_model(self, *, decompose_errors=False):
        if not decompose_errors:
            raise ValueError("stand-in: errors must be decomposed")
        return DetectorErrorModel(self.text)
