"""Documented argument and output names of the public functions."""
DIMS = {1: 'x', 2: 'yx', 3: 'zyx'}
def states(eq, nd):
    """names of the wavefield arguments, in the order in which they are returned"""
    ds = DIMS[nd]
    if eq == 'scalar': return ['wavefield_0', 'wavefield_m1'] + ['psi%s_m1' % d for d in ds] + ['zeta%s_m1' % d for d in ds]
    if eq == 'scalar_born': return states('scalar', nd) + ['wavefield_sc_0', 'wavefield_sc_m1'] + ['psi%s_sc_m1' % d for d in ds] + ['zeta%s_sc_m1' % d for d in ds]
    if eq == 'acoustic': return ['pressure_0'] + ['v%s_0' % d for d in ds] + ['phi_%s_0' % d for d in ds] + ['psi_%s_0' % d for d in ds]
    o = ['vz', 'vy', 'vx', 'sigmazz', 'sigmayz', 'sigmaxz', 'sigmayy', 'sigmaxy', 'sigmaxx', 'm_vzz', 'm_vzy', 'm_vzx', 'm_vyz', 'm_vxz', 'm_vyy', 'm_vyx', 'm_vxy', 'm_vxx', 'm_sigmazzz', 'm_sigmayzy', 'm_sigmaxzx', 'm_sigmayzz', 'm_sigmaxzz', 'm_sigmayyy', 'm_sigmaxyy', 'm_sigmaxyx', 'm_sigmaxxx']
    return [n + '_0' for n in o if not ({'z', 'y', 'x'} - set(ds)) & set(n.split('_')[-1].replace('sigma', '').replace('v', ''))]
