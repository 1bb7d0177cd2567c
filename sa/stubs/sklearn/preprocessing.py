class Scaler:
    def __init__(self, *args, **kwargs):
        self.fitted = False

    def fit(self, X, y=None):
        self.mean_, self.scale_ = MOMENTS(X)
        self.fitted = True
        return self

    def partial_fit(self, X, y=None):
        return self.fit(X)

    def transform(self, X):
        if not self.fitted:
            raise ValueError("This scaler instance is not fitted yet.")
        return (X - self.mean_) / self.scale_

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)

    def inverse_transform(self, X):
        if not self.fitted:
            raise ValueError("This scaler instance is not fitted yet.")
        return X * self.scale_ + self.mean_


StandardScaler = MinMaxScaler = RobustScaler = MaxAbsScaler = Scaler
