from medcoupling import *
