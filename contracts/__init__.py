PROPERTIES = {
    'P01': dict(modules=['unary']),
    'P02': dict(modules=['binary']),
    'P03': dict(modules=['compare']),
    'P04': dict(modules=['convert']),
    'P05': dict(modules=['parallel']),
    'P07': dict(modules=['groupby']),
    'P11': dict(modules=['cumulative']),
    'P08': dict(modules=['select']),
    'P09': dict(modules=['index']),
}
