from . import order, steps, control, functions, histories, construct, kinds, symmetry, refuse, gridsym, restart

CHECKS = {"P01": order.P01, "P02": order.P02, "P03": order.P03, "P04": steps.P04, "P05": steps.P05, "P06": steps.P06, "P07": steps.P07, "P08": functions.P08, "P09": histories.P09, "P10": histories.P10, "P15": histories.P15, "P16": construct.P16, "P17": construct.P17, "P18": functions.P18, "P19": functions.P19, "P20": functions.P20, "P21": functions.P21, "P22": functions.P22, "P23": functions.P23, "P11": control.P11, "P12": control.P12, "P13": control.P13, "P14": control.P14, "P24": kinds.P24, "P25": kinds.P25, "P26": symmetry.P26, "P27": symmetry.P27, "P28": symmetry.P28, "P29": refuse.P29, "P30": gridsym.P30, "P31": restart.P31, "P32": restart.P32}
TECH = {}
NA = {}
