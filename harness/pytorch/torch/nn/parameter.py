from . import Parameter
