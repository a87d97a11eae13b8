"""Entry point of the checks: python3-vt -m vc.check ID"""
import sys, importlib
def main(prop):
    from props import kernels
    if prop == 'C01': return kernels.main_step('C01', 'forward')
    if prop == 'C02': return kernels.main_step('C02', 'backward')
    if prop == 'C03': return kernels.main_access('C03')
    return importlib.import_module('props.' + prop.lower()).main(prop)
if __name__ == '__main__': sys.exit(main(sys.argv[1]))
