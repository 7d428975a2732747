from matplotlib import Axes as Axes3D
