CHECKS = {
    'C02': ('c_disp', 'check_typed'),
    'C01': ('c_disp', 'check_registry'),
    'C03': ('c_elem', 'check_formula'),
    'C04': ('c_cow', 'check_cow'),
}
CHECKS['C06'] = ('c_grad', 'check_grad')
CHECKS['C07'] = ('c_engine', 'check_engine')
CHECKS['C08'] = ('c_optim', 'check_optim')
CHECKS['C09'] = ('c_lane', 'check_lane')
CHECKS['C10'] = ('c_reduce', 'check_reduce')
CHECKS['C11'] = ('c_xform', 'check_xform')
CHECKS['C12'] = ('c_lin', 'check_lin')
CHECKS['C05'] = ('c_fresh', 'check_fresh')
CHECKS['C13'] = ('c_shape', 'check_shape')
CHECKS['C14'] = ('c_api', 'check_api')
CHECKS['C15'] = ('c_layer', 'check_layer')
CHECKS['C16'] = ('c_fused', 'check_fused')
CHECKS['C17'] = ('c_fill', 'check_fill')
CHECKS['C18'] = ('c_module', 'check_module')
CHECKS['C19'] = ('c_data', 'check_data')
CHECKS['C20'] = ('c_bcast', 'check_bcast')
CHECKS['C21'] = ('c_samp', 'check_samp')
CHECKS['C22'] = ('c_ckpt', 'check_ckpt')
CHECKS['C23'] = ('c_alloc', 'check_alloc')
CHECKS['C24'] = ('c_ddp', 'check_ddp')
CHECKS['C25'] = ('c_width', 'check_width')
CHECKS['C26'] = ('c_state', 'check_state')
