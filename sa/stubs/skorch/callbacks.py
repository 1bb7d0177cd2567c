class Callback:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs


EarlyStopping = EpochScoring = Checkpoint = LRScheduler = ProgressBar = PrintLog = Callback
