"""Nothing to build: confirms the interpreter and libraries the simulator needs are there."""
import h5py, numpy, scipy, astropy, requests, matplotlib  # noqa
print('ready: python with numpy %s, h5py %s' % (numpy.__version__, h5py.__version__))
