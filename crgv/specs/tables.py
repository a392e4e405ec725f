"""Layout / stage / format tables (P04)"""
from .common import *
from .layout import *
from .handlers import deref, img_info, view_data

L = 'VK_IMAGE_LAYOUT_'
S = 'VK_PIPELINE_STAGE_'
A = 'VK_ACCESS_'


def spec_call(fn, layout):
    """result of a pure function of one 32-bit argument whose table is proved on its own"""
    return z3.Function('SPEC!' + fn, B32, B32)(layout)


def spec_access(E, layout):
    return spec_call('crg::getAccessMask', layout)


def spec_stage(E, layout):
    return spec_call('crg::getStageMask', layout)


def flags(E, prefix, names):
    v = 0
    for n in names:
        v |= vkc(E, prefix + n)
    return b32(v)


def table(c, x, xp, vp, rows, default):
    E = c.E
    v = b32(default)
    for keys, vals in reversed(rows):
        v = If(Or([x == K32(E, xp + k) for k in keys]), flags(E, vp, vals), v)
    return v


ACCESS = [
    (['PRESENT_SRC_KHR', 'SHARED_PRESENT_KHR'], ['MEMORY_READ_BIT']),
    (['COLOR_ATTACHMENT_OPTIMAL'], ['COLOR_ATTACHMENT_WRITE_BIT']),
    (['DEPTH_STENCIL_ATTACHMENT_OPTIMAL', 'DEPTH_ATTACHMENT_OPTIMAL', 'STENCIL_ATTACHMENT_OPTIMAL'], ['DEPTH_STENCIL_ATTACHMENT_WRITE_BIT']),
    (['DEPTH_STENCIL_READ_ONLY_OPTIMAL', 'DEPTH_READ_ONLY_OPTIMAL', 'STENCIL_READ_ONLY_OPTIMAL'], ['DEPTH_STENCIL_ATTACHMENT_READ_BIT']),
    (['SHADER_READ_ONLY_OPTIMAL'], ['SHADER_READ_BIT']),
    (['TRANSFER_SRC_OPTIMAL'], ['TRANSFER_READ_BIT']),
    (['TRANSFER_DST_OPTIMAL'], ['TRANSFER_WRITE_BIT']),
    (['DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL', 'DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL'], ['DEPTH_STENCIL_ATTACHMENT_READ_BIT', 'DEPTH_STENCIL_ATTACHMENT_WRITE_BIT']),
    (['SHADING_RATE_OPTIMAL_NV'], ['SHADING_RATE_IMAGE_READ_BIT_NV']),
    (['FRAGMENT_DENSITY_MAP_OPTIMAL_EXT'], ['FRAGMENT_DENSITY_MAP_READ_BIT_EXT']),
]
STAGE = [
    (['UNDEFINED'], ['HOST_BIT']),
    (['GENERAL', 'PRESENT_SRC_KHR', 'SHARED_PRESENT_KHR'], ['BOTTOM_OF_PIPE_BIT']),
    (['DEPTH_STENCIL_READ_ONLY_OPTIMAL', 'DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL', 'DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL', 'DEPTH_STENCIL_ATTACHMENT_OPTIMAL',
      'DEPTH_ATTACHMENT_OPTIMAL', 'DEPTH_READ_ONLY_OPTIMAL', 'STENCIL_ATTACHMENT_OPTIMAL', 'STENCIL_READ_ONLY_OPTIMAL'], ['LATE_FRAGMENT_TESTS_BIT']),
    (['COLOR_ATTACHMENT_OPTIMAL'], ['COLOR_ATTACHMENT_OUTPUT_BIT']),
    (['SHADER_READ_ONLY_OPTIMAL', 'FRAGMENT_DENSITY_MAP_OPTIMAL_EXT'], ['FRAGMENT_SHADER_BIT']),
    (['TRANSFER_SRC_OPTIMAL', 'TRANSFER_DST_OPTIMAL'], ['TRANSFER_BIT']),
    (['SHADING_RATE_OPTIMAL_NV'], ['SHADING_RATE_IMAGE_BIT_NV']),
]
contract('crg::getAccessMask', ['P04'], np=1, sub='VkImageLayout', spec_fn=True, result=lambda c: spec_access(c.E, c.av(0)), call_ensures=lambda c: [('table', spec_access(c.E, c.av(0)) == table(c, c.av(0), L, A, ACCESS, 0))] if conc_int(c.av(0)) is not None else [],
         ensures=lambda c: [('the access mask is the one of the layout', c.res() == table(c, c.av(0), L, A, ACCESS, 0))])
contract('crg::getStageMask', ['P04'], np=1, sub='VkImageLayout', spec_fn=True, result=lambda c: spec_stage(c.E, c.av(0)), call_ensures=lambda c: [('table', spec_stage(c.E, c.av(0)) == table(c, c.av(0), L, S, STAGE, 0))] if conc_int(c.av(0)) is not None else [],
         ensures=lambda c: [('the stage mask is the one of the layout', c.res() == table(c, c.av(0), L, S, STAGE, 0))])


def is_layout_state(E, s, layout):
    return And(s.get('layout') == layout, s.get('state').get('access') == spec_access(E, layout), s.get('state').get('pipelineStage') == spec_stage(E, layout))


def mk_layout(E, layout):
    ty = Ty('struct', name='crg::LayoutState')
    st = Ty('struct', name='crg::PipelineState')
    ps = StructV(E, st, None, {'access': spec_access(E, layout), 'pipelineStage': spec_stage(E, layout)})
    return StructV(E, ty, None, {'layout': layout, 'state': ps})


contract('crg::makeLayoutState', ['P04'], np=1, spec_fn=True, result=lambda c: mk_layout(c.E, c.av(0)), call_ensures=lambda c: [],
         ensures=lambda c: [('layout, its access mask and its stage mask', is_layout_state(c.E, c.res(), c.av(0)))])

STATE_ACCESS = [('BOTTOM_OF_PIPE_BIT', ['MEMORY_READ_BIT']), ('COLOR_ATTACHMENT_OUTPUT_BIT', ['COLOR_ATTACHMENT_WRITE_BIT', 'COLOR_ATTACHMENT_READ_BIT']),
                ('LATE_FRAGMENT_TESTS_BIT', ['DEPTH_STENCIL_ATTACHMENT_WRITE_BIT', 'DEPTH_STENCIL_ATTACHMENT_READ_BIT']), ('FRAGMENT_SHADER_BIT', ['SHADER_READ_BIT']),
                ('TRANSFER_BIT', ['TRANSFER_READ_BIT', 'TRANSFER_WRITE_BIT']), ('SHADING_RATE_IMAGE_BIT_NV', ['SHADING_RATE_IMAGE_READ_BIT_NV']), ('COMPUTE_SHADER_BIT', ['SHADER_READ_BIT'])]


def pipeline_access(E, f):
    v = b32(0)
    for s, acc in STATE_ACCESS:
        v = v | If(f & K32(E, S + s) != 0, flags(E, A, acc), b32(0))
    return v


contract('crg::getPipelineState', ['P04'], np=1, modular=False,
         ensures=lambda c: [('the accesses of every stage given, and only those', c.res().get('access') == pipeline_access(c.E, c.av(0))),
                            ('the stages given', c.res().get('pipelineStage') == c.av(0))])
DEPTH = ['D16_UNORM', 'X8_D24_UNORM_PACK32', 'D32_SFLOAT', 'D16_UNORM_S8_UINT', 'D24_UNORM_S8_UINT', 'D32_SFLOAT_S8_UINT']
STENCIL = ['S8_UINT', 'D16_UNORM_S8_UINT', 'D24_UNORM_S8_UINT', 'D32_SFLOAT_S8_UINT']


def fmt_in(E, f, l):
    return Or([f == K32(E, 'VK_FORMAT_' + n) for n in l])


for n, p in (('isDepthFormat', lambda E, f: fmt_in(E, f, DEPTH)), ('isStencilFormat', lambda E, f: fmt_in(E, f, STENCIL)),
             ('isColourFormat', lambda E, f: And(Not(fmt_in(E, f, DEPTH)), Not(fmt_in(E, f, STENCIL)))),
             ('isDepthStencilFormat', lambda E, f: And(fmt_in(E, f, DEPTH), fmt_in(E, f, STENCIL)))):
    contract('crg::' + n, ['P04'], np=1, ensures=lambda c, p=p: [('the format is classified by its components', c.res() == p(c.E, c.av(0)))])


def aspect(E, f):
    d, s = K32(E, 'VK_IMAGE_ASPECT_DEPTH_BIT'), K32(E, 'VK_IMAGE_ASPECT_STENCIL_BIT')
    isd, iss = fmt_in(E, f, DEPTH), fmt_in(E, f, STENCIL)
    return If(Or(isd, iss), If(isd, d, b32(0)) | If(iss, s, b32(0)), K32(E, 'VK_IMAGE_ASPECT_COLOR_BIT'))


contract('crg::getAspectMask', ['P04'], np=1, ensures=lambda c: [('every component of the format, and only those', c.res() == aspect(c.E, c.av(0)))])
