from skorch import NeuralNetRegressor
