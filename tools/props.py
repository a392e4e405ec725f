PROPS = []


def P(id, **k):
    PROPS.append(dict(id=id, **k))


P('P01', title='Recorded image layouts are the layouts read back',
  statement='After any history of layout recordings on images and views (arrays, cubes, 3D images, mip chains, merged views), reading the tracked state of a subresource range yields a state recorded last for a subresource of that range, and "undefined" only if nothing of the range was ever recorded. Recording one range changes nothing outside it, and merging one tracker into another keeps the states of the images the target already knows and adopts those of all the others.',
  over=['histories', 'inputs'], forall='every sequence of set/get/merge operations, every image description (type, extent, mip count, layer count), every view type and subresource range within the image',
  why='The tests record a few layouts on a few 2D images; which mip/layer combinations alias, are skipped or leak outside the range depends on arithmetic over all ranges and histories.',
  files=['source/RenderGraph/LayerLayoutStatesHandler.cpp', 'source/RenderGraph/RecordContext.cpp', 'source/RenderGraph/FrameGraph.cpp', 'source/RenderGraph/BuilderCommon.hpp'],
  mech=[('per-layer, per-level layout map', 'LayerLayoutStatesHandler::setLayoutState/getLayoutState/addStates'), ('range recording and lookup', 'crg::addSubresourceRangeLayout, crg::getSubresourceRangeLayout, crg::getVirtualRange'), ('record-time tracking', 'RecordContext::setLayoutState/getLayoutState')],
  observe=['RecordContext::getLayoutState', 'LayerLayoutStatesHandler::getLayoutState'],
  note='All 16 functions proved for all inputs and loop iterations.')
P('P02', title='Image barriers go exactly from the tracked to the wanted state',
  statement='Asking for an image (or view) to be in a wanted state issues one barrier whose source layout, access and stages are those tracked for that range (or those of the given initial layout if nothing is tracked) and whose destination is the wanted one, on that image, range and command buffer, with depth and stencil transitioned together unless the device separates them; the new state is then tracked for that range only. No barrier and no change of tracking happen when layout and stages already match or the wanted layout is undefined, unless forced; without device resources an error is reported.',
  over=['histories', 'inputs', 'configurations'], forall='every tracked history, image, view, range, wanted state, initial layout, force flag and depth/stencil device setting',
  why='A wrong source state only shows as corruption on some GPUs, the test device ignores barriers, and the tests reach a handful of histories.',
  files=['source/RenderGraph/RecordContext.cpp'],
  mech=[('image barrier overloads', 'RecordContext::memoryBarrier (six image/view overloads)'), ('tracking', 'RecordContext::setLayoutState, RecordContext::getLayoutState')],
  observe=['vkCmdPipelineBarrier', 'RecordContext::getLayoutState'],
  note='All overloads proved. Creating the image on first use is a contract shared with P12. Not claimed: barriers for pure access changes with unchanged stage (the library issues none, by design of its test).')
P('P03', title='Buffer barriers go exactly from the tracked to the wanted access',
  statement='Asking for a buffer to be in a wanted access state issues one barrier from the tracked access and stages (or the given initial ones when the buffer is unknown) to the wanted ones over the given range, then tracks the wanted state; nothing is issued or changed when access and stages already match, unless forced. Other buffers keep their tracked state.',
  over=['histories', 'inputs'], forall='every sequence of barriers and state recordings on any set of buffers, every access/stage mask, range and force flag',
  why='The test device ignores barrier contents; the source state depends on the whole history.',
  files=['source/RenderGraph/RecordContext.cpp'],
  mech=[('buffer barrier overloads', 'RecordContext::memoryBarrier (buffer)'), ('tracking', 'RecordContext::setAccessState, RecordContext::getAccessState')],
  observe=['vkCmdPipelineBarrier', 'RecordContext::getAccessState'],
  note='All four functions proved.')
P('P04', title='Layouts, formats and stages map to the right masks',
  statement='Each image layout maps to the access mask and pipeline stage under which the graph uses it; the access mask deduced from a set of pipeline stages is the union over exactly those stages. Each format is classified as colour, depth, stencil or both by its components, and its aspect mask names exactly those components.',
  over=['inputs'], forall='every layout, every format value and every combination of stage bits',
  why='The tests compare a few entries; a wrong entry yields a missing dependency that no CPU test observes.',
  files=['source/RenderGraph/FrameGraph.cpp', 'include/RenderGraph/FrameGraphPrerequisites.hpp'],
  mech=[('tables', 'crg::getAccessMask, crg::getStageMask, crg::makeLayoutState, crg::getPipelineState'), ('formats', 'crg::isDepthFormat, crg::isStencilFormat, crg::isColourFormat, crg::isDepthStencilFormat, crg::getAspectMask')],
  observe=['values returned', 'vkCmdPipelineBarrier'],
  note='All 9 functions proved against explicit tables over all 32-bit arguments.')
P('P05', title='Passes run after the passes they depend on, each exactly once',
  statement='For every graph whose dependencies form no cycle, the passes of the graph and of all its groups are each listed once and put in an order where every pass comes after all the passes it depends on, and the runnable graph creates, initialises (when enabled) and records them in that order. Ordering such a graph never fails.',
  over=['programs'], forall='every set of passes, in any nesting of groups, with any acyclic dependencies declared in any order',
  why='The order depends on the whole dependency relation and on the order of declaration; the tests sample a few small graphs, most of them chains.',
  files=['source/RenderGraph/FrameGraph.cpp', 'source/RenderGraph/FramePassGroup.cpp', 'source/RenderGraph/RunnableGraph.cpp', 'source/RenderGraph/FramePass.cpp'],
  mech=[('sort', 'fgph::sortPasses'), ('listing', 'FramePassGroup::listPasses'), ('creation', 'RunnableGraph::RunnableGraph')],
  observe=['order of the creation, initialisation and recording of the passes'],
  note='Proved: the sort, the listing over the tree of groups, the creation and initialisation loops; recording in order is proved under P18/P22. Assumed: passes of one graph have distinct ids, dependencies are passes of the same graph, a finite set has an element of least rank, creators do not touch the graph beyond its public interface. Not under contract: FrameGraph::compile itself, which joins these steps (bounded harness).')
P('P07', title='Declared uses of resources have the layout, access and stages they need',
  statement='Declaring a resource on a pass (any of the sampled, storage, transfer, uniform, implicit, colour, depth or stencil forms) adds exactly one use, with the views or buffer, range, binding and operations given, read when it is an input or loads its contents, written when it is an output or stores them; depth and stencil uses come first. The layout, access mask, pipeline stages (fragment, compute, transfer, attachment) and descriptor type reported for a use are those its kind and its read/write role require, with and without separate depth and stencil layouts.',
  over=['inputs', 'configurations'], forall='every declaration form, every list of previous declarations, every argument value, both shader kinds and both depth/stencil device settings',
  why='Some forty declaration functions feed every barrier of the graph; one wrong flag is a missing dependency no CPU test sees.',
  files=['source/RenderGraph/FramePass.cpp', 'include/RenderGraph/FramePass.hpp', 'source/RenderGraph/Attachment.cpp', 'include/RenderGraph/Attachment.hpp'],
  mech=[('declarations', 'FramePass::add* (39 declaration functions, single view and array forms)'), ('roles', 'ImageAttachment/BufferAttachment/Attachment::getImageLayout, getAccessMask, getPipelineStageFlags, getDescriptorType')],
  observe=['Attachment getters', 'FramePass::images, FramePass::buffers'],
  note='Every declaration function and getter is proved. Names of attachments are not specified (assumed opaque: fpass::adjustName).')
P('P25', title='Each pass instance uses its own view and buffer',
  statement='A use declared with several views or buffers yields, for instance i, the i-th one; declared with a single one, it yields that one for every instance. Descriptor writes for a buffer name the buffer of the instance with the declared range, binding and type, and a texel view where there is one.',
  over=['inputs', 'configurations'], forall='every list of views or buffers, every instance index within it, every declared kind and range',
  why='Tests mostly use one instance; a wrong index binds the resource of another frame in flight.',
  files=['source/RenderGraph/Attachment.cpp', 'include/RenderGraph/FrameGraphPrerequisites.hpp'],
  mech=[('selection', 'ImageAttachment::view, Attachment::view, Attachment::buffer, Buffer::buffer'), ('writes', 'BufferAttachment::getWrite, Attachment::getBufferWrite')],
  observe=['Attachment::view, Attachment::buffer, Attachment::getBufferWrite'],
  note='All 7 functions proved.')
P('P18', title='Each run submits the graph once, waiting for what it is given',
  statement='Running a compiled graph records it, then submits its command buffer exactly once to the given queue, with its own fence and semaphore, waiting for every given non-null semaphore at all the stages it was given for and for nothing else. The fence is waited for and reset before the submission, resources queued for deletion are released once in between, and the run returns the semaphore of the graph with the stage of its final state.',
  over=['inputs', 'histories'], forall='every list of semaphore waits (null, repeated, any stage masks), every queue, every list of passes and every number of runs',
  why='Wait lists are merged with data-dependent indexing and the order of wait, deletion, reset and submit only matters on a device that really runs; the stub device of the tests accepts anything.',
  files=['source/RenderGraph/RunnableGraph.cpp', 'source/RenderGraph/RunnablePass.cpp', 'include/RenderGraph/GraphContext.hpp'],
  mech=[('submission', 'RunnableGraph::run (three forms), RunnableGraph::record'), ('wait lists', 'crg::convert'), ('deferred deletion', 'DeletionQueue::clear')],
  observe=['vkQueueSubmit', 'vkWaitForFences, vkResetFences', 'the returned waits'],
  note='All functions proved; a defect (stage masks of a repeated semaphore were dropped) was repaired. Assumed: recording one pass (contract of P21) does not submit.')
P('P20', title='Timers use their own queries and report device time correctly',
  statement='Each timer owns four distinct queries of its pool, alternates between its two pairs, resets exactly the pair it is about to write, and writes its start and end timestamps to the two queries of that pair. It reads results only for a pair that was both written and submitted, once, reports the tick difference times the timestamp period of its device as nanoseconds, and reports zero otherwise.',
  over=['histories', 'inputs', 'configurations'], forall='every sequence of begin, end, notify and retrieve calls, every base offset, pool and timestamp period',
  why='Reading an unwritten query hangs or returns garbage on a real device; overlap of query ranges depends on the number of timers and the history of each.',
  files=['source/RenderGraph/FramePassTimer.cpp', 'source/RenderGraph/RunnableGraph.cpp'],
  mech=[('timers', 'FramePassTimer::FramePassTimer, beginPass, endPass, notifyPassRender, retrieveGpuTime, reset'), ('pool', 'crg::createQueryPool')],
  observe=['vkCmdResetQueryPool, vkCmdWriteTimestamp, vkGetQueryPoolResults', 'FramePassTimer::getGpuTime'],
  note='All functions proved except the destructor (harness only); floating-point operations are uninterpreted in the proof, their rounding is sampled by the harness. The room in the graph pool is sampled by the harness.')
P('P22', title='No command buffer is recorded or reset while its fence is pending',
  statement='A fence counts as waited only after a successful wait, and is reset only after one; moving a fence transfers it and destroying it releases it once. Recording or re-recording a graph or a pass instance first waits without time limit for the fence of what is recorded, then records between begin and end of its own command buffer, for the current instance index, in pass order.',
  over=['histories', 'fault_sequences', 'inputs'], forall='every sequence of fence waits (succeeding or failing), resets and moves, every list of passes and every instance index',
  why='Recording a command buffer still in use is a race no stub device shows, and it depends on the outcome history of waits.',
  files=['source/RenderGraph/RunnablePass.cpp', 'source/RenderGraph/RunnableGraph.cpp'],
  mech=[('fences', 'Fence::Fence, Fence::wait, Fence::reset, Fence::~Fence'), ('recording', 'RunnableGraph::record, RunnablePass::recordCurrentInto, recordOne, reRecordCurrent, resetCommandBuffer')],
  observe=['vkWaitForFences, vkResetFences, vkBeginCommandBuffer, vkEndCommandBuffer, vkResetCommandBuffer'],
  note='All functions proved; a defect (a failed wait counted as waited) was repaired. Assumed: RunnablePass::recordInto (contract of P21), value callbacks depend on the callback only, the index callback designates an existing instance.')
P('P21', title='Recording a pass transitions, clears, then runs it, in that order',
  statement='Recording an enabled pass initialises it once for the instance, then for each declared image use runs the implicit transition of its view, clears it to zero when it is a cleared output, and moves it from the state the graph knows (or undefined for what the pass does not read) to the layout, accesses and stages of the declared use; buffers likewise, filling the declared range rounded up to multiples of four. Then the actions before the pass, its recording callback and the actions after it run in order for the instance, between the two timestamps; the known state of an image is what this recording left, else what the graph was given, else what its previous run left. A disabled pass records nothing and, like an enabled one, registers its implicit transitions.',
  over=['inputs', 'configurations', 'histories'], forall='every list of declared uses, every known state, enabled or not, every instance index, every list of actions, with and without separate depth and stencil layouts',
  why='A transition from the wrong layout, or a clear after it, is invisible on the stub device of the tests, and depends on everything recorded before.',
  files=['source/RenderGraph/RunnablePass.cpp', 'source/RenderGraph/RunnableGraph.cpp', 'source/RenderGraph/RecordContext.cpp'],
  mech=[('recording', 'RunnablePass::recordInto'), ('known states', 'RunnableGraph::getCurrentLayoutState (image and view)')],
  observe=['vkCmdPipelineBarrier, vkCmdClearColorImage, vkCmdClearDepthStencilImage, vkCmdFillBuffer', 'callbacks', 'RecordContext::getLayoutState'],
  note='All functions proved. Assumed: the declared uses are well-formed (one kind each, a view or buffer for the index, what declaration guarantees: P07, P25); value callbacks depend on the callback only; callbacks keep registrations pointing to passes.')
P('P16', title='Implicit transitions replace what a disabled pass would have done',
  statement='At the next use of a view, the transition registered first for that view is used up, and its action runs exactly when the pass that registered it is disabled at that moment, into the command buffer and for the index of the use. Registrations are kept in order, other views keep theirs, and a use without registration does nothing.',
  over=['histories'], forall='every sequence of registrations, enabling, disabling and uses of any set of views',
  why='It only matters for passes toggled between recordings; the tests toggle none that have implicit actions.',
  files=['source/RenderGraph/RecordContext.cpp'],
  mech=[('registration', 'RecordContext::registerImplicitTransition'), ('use', 'RecordContext::runImplicitTransition')],
  observe=['actions run'],
  note='All functions proved. Assumed: the enabled callback depends on the callback only.')
P('P17', title='Copies, blits and clears act on exactly the declared resources',
  statement='A pass (or a request on the recording context) that copies between images or buffers, blits or clears issues exactly one such command, on the images and buffers of the instance it is recorded for, in the transfer layouts, on exactly the declared mip levels and layers, from each offset over exactly the declared extent or byte range. Requests on the recording context first bring both images to the transfer layouts and leave the target in the requested layout; a clear uses the colour or the depth and stencil command according to the format.',
  over=['inputs', 'configurations'], forall='every view, range, offset, extent, buffer range, filter, clear value, instance index and known layout',
  why='Regions are computed from offsets, extents and sub-ranges that tests leave at zero or whole; the stub device accepts any region.',
  files=['source/RenderGraph/RunnablePasses/ImageCopy.cpp', 'source/RenderGraph/RunnablePasses/ImageBlit.cpp', 'source/RenderGraph/RunnablePasses/BufferCopy.cpp', 'source/RenderGraph/RunnablePasses/BufferToImageCopy.cpp', 'source/RenderGraph/RunnablePasses/ImageToBufferCopy.cpp', 'source/RenderGraph/RecordContext.cpp'],
  mech=[('passes', 'ImageCopy, ImageBlit, BufferCopy, BufferToImageCopy, ImageToBufferCopy::doRecordInto'), ('requests', 'RecordContext::copyImage, blitImage, clearAttachment (attachment and view)')],
  observe=['vkCmdCopyImage, vkCmdBlitImage, vkCmdCopyBuffer, vkCmdCopyBufferToImage, vkCmdCopyImageToBuffer, vkCmdClearColorImage, vkCmdClearDepthStencilImage'],
  note='All nine functions proved; a defect (blit regions ignored their offset in the end corner) was repaired. Mip generation is not part of this property.')
P('P19', title='Passes that draw or dispatch issue one command with their own state',
  statement='Recording a drawing or dispatching pass binds the pipeline of its program and the descriptor set of its instance with their layout, runs its recording callback, then issues exactly one draw or dispatch: indirect from the declared buffer, offset and stride when the instance has an indirect buffer, else direct with the declared counts of each axis, or vertex, index or instance count; vertex and index buffers of the instance are bound before it when there are any. Nothing else is drawn or dispatched, and its ending callback comes last.',
  over=['inputs', 'configurations', 'histories'], forall='every combination of counts, count callbacks, vertex, index and indirect buffers, instance indices and programs',
  why='The combinations multiply beyond what tests sample, and the stub device accepts commands without pipeline or with wrong counts.',
  files=['source/RenderGraph/RunnablePasses/ComputePass.cpp', 'source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp', 'source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp', 'source/RenderGraph/RunnablePasses/PipelineHolder.cpp'],
  mech=[('commands', 'ComputePass::doRecordInto, RenderMeshHolder::record, RenderQuadHolder::record'), ('binding', 'PipelineHolder::recordInto')],
  observe=['vkCmdBindPipeline, vkCmdBindDescriptorSets, vkCmdDispatch*, vkCmdDraw*, vkCmdBindVertexBuffers, vkCmdBindIndexBuffer', 'callbacks'],
  note='All four functions proved; a defect (axes y and z took the callback of x) was repaired. Assumed: value callbacks depend on the callback only, callbacks leave the device and the pass alive.')
P('P09', title='Descriptors and pipelines match the declared uses and are made once',
  statement='Setting up a pass makes one binding for each declared sampled, storage or uniform use, with the declared number, the type of the use and one descriptor, visible to the stages of the kind of pass; one set layout, one pipeline layout over it and the extra layouts, and one pool with room for the sets of all instances. The set of an instance is allocated and written once, with the views, samplers, layouts, buffers and ranges of that instance; each program gets exactly one pipeline, built from its own stages with that layout, which a replacement retires only after its uses end. All of them are released with the pass, once.',
  over=['inputs', 'configurations', 'histories', 'fault_sequences'], forall='every list of declared uses, every number of instances, shared or separate programs, every order of recording and program replacement, every failure of a creation',
  why='Bindings, pool sizes and writes are derived from the declarations in separate places that only a real driver compares, and leaks need several instances to show.',
  files=['source/RenderGraph/RunnablePasses/PipelineHolder.cpp', 'source/RenderGraph/RunnablePasses/ComputePass.cpp', 'source/RenderGraph/RunnablePasses/RenderMeshHolder.cpp', 'source/RenderGraph/RunnablePasses/RenderQuadHolder.cpp'],
  mech=[('bindings and layouts', 'PipelineHolder::initialise, doFillDescriptorBindings, doCreateDescriptorSetLayout, doCreatePipelineLayout, doCreateDescriptorPool, getBindingsSizes'), ('sets', 'PipelineHolder::createDescriptorSet'), ('pipelines', 'doCreatePipeline of the three kinds of pass, PipelineHolder::resetPipeline, cleanup')],
  observe=['vkCreateDescriptorSetLayout, vkCreatePipelineLayout, vkCreateDescriptorPool, vkAllocateDescriptorSets, vkUpdateDescriptorSets, vkCreateComputePipelines, vkCreateGraphicsPipelines, vkDestroy*'],
  note='All 13 functions proved; a defect (a shared program leaked a pipeline for each further instance) was repaired. Assumed: program creators give at least one stage to a dispatch, declared uses are well-formed (P07), images and samplers are created as ContextResourcesCache says.')
P('P23', title='Render passes and framebuffers describe exactly the declared targets',
  statement='The render pass of a pass instance describes each declared target in order: format and samples of the instance\'s view, declared load and store operations (cleared instead of loaded when coming from undefined), from the layout the graph knows for it (undefined for targets not read) to the layout needed next, with the dependencies from the previous and to the next states. Its framebuffer has the views of the instance and an area and layer count they cover, beginning it uses both with the declared clear values, and inside it the known layouts are the initial ones, after it the final ones. Both are made again exactly when those states changed, and destroyed once.',
  over=['inputs', 'configurations', 'histories'], forall='every list of targets, every mip level, layer range and format of their views, every known state, every instance and every sequence of recordings',
  why='The attachment list, references, clear values and views are built in separate loops that only a real driver compares; changes of state need re-recording after other passes moved.',
  files=['source/RenderGraph/RunnablePasses/RenderPass.cpp', 'source/RenderGraph/RunnablePasses/RenderPassHolder.cpp'],
  mech=[('description', 'RenderPassHolder::doCreateRenderPass, doInitialiseRenderArea, checkAttaches'), ('framebuffer', 'RenderPassHolder::doCreateFramebuffer'), ('recording', 'RenderPassHolder::initialise, begin, end, doCleanup'), ('known states', 'RenderPassHolder::getLayoutState')],
  observe=['vkCreateRenderPass, vkCreateFramebuffer, vkCmdBeginRenderPass, vkCmdEndRenderPass, vkDestroy*', 'RecordContext::getLayoutState'],
  note='All functions proved; a defect (render areas of instances other than the first, and of small mip levels) was repaired. Assumed: the uses of the pass are well-formed (P07, P25) and its depth target, if any, comes first in declared order; the pointer to the depth reference is checked by the harness only.')
P('P12', title='Resources of a device are made once, owned once and released once',
  statement='Each image, view, sampler and quad vertex buffer of a device is made once, as described, and shared by whoever asks again; memory of an image comes from the first memory type that the image allows and that has all requested properties (an error if there is none), has the required size and is bound to it. Each belongs to exactly the cache that made it and is released exactly once, with its memory and the views on it no longer known, when it is destroyed or with its cache. A failed creation leaves nothing behind and nothing remembered.',
  over=['histories', 'fault_sequences', 'inputs', 'configurations'], forall='every sequence of creations and destructions of any resources by any number of caches, every failing device call, every table of memory types',
  why='Leaks, double releases and half-made resources need several caches, shared resources and failing calls; the tests use one cache and a device that never fails.',
  files=['source/RenderGraph/ResourceHandler.cpp', 'source/RenderGraph/GraphContext.cpp', 'include/RenderGraph/ResourceHandler.hpp'],
  mech=[('memory type', 'GraphContext::deduceMemoryType'), ('creation', 'ResourceHandler::createImage, createImageView, createSampler'), ('release', 'ResourceHandler::destroyImage, destroyImageView, destroySampler, destroyVertexBuffer'), ('caches', 'ContextResourcesCache::createImage, createImageView, createSampler, destroyImage, destroyImageView, destructor'), ('keys', 'reshdl::makeHash')],
  observe=['vkCreateImage, vkAllocateMemory, vkBindImageMemory, vkCreateImageView, vkCreateSampler, vkCreateBuffer, vkDestroy*, vkFreeMemory', 'returned handles'],
  note='All functions listed are proved; creating a quad vertex buffer is checked by the harness only. Four defects (images of views had no owner, destroyed images were handed out again, failed creations were leaked or remembered as null, a failed vertex buffer was leaked) were repaired. Assumed: at most 32 memory types (Vulkan limit), mixing of sampler hashes has no collision, resources given exist.')
P('P13', title='Generating mips fills every level of the image from the one before',
  statement='For each layer of the view, each level but the first is blitted once, whole, from the whole level before it, which was made before and is readable while the level written is writable. Every level of every layer is left in the layout wanted next, known as such, whatever the number of levels and the size of the image, and nothing else is touched.',
  over=['inputs', 'configurations'], forall='every number of levels and layers, every extent including odd and single-texel levels, every known and next layout, every instance index',
  why='Barriers and regions are computed level by level from extents; the tests use one square image and a stub device that accepts any region and layout.',
  files=['source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp'],
  mech=[('recording', 'GenerateMipmaps::doRecordInto')],
  observe=['vkCmdBlitImage, vkCmdPipelineBarrier', 'RecordContext::getLayoutState'],
  note='Proved, with two nested loop invariants; a defect (an image with a single level was left in the transfer layout) was repaired. Assumed: the image has 1 to 31 levels, extents below 2^31, the view is not a merged one and its layers are those of the image.')
P('P11', title='Images and views keep one identity and what was declared about them',
  statement='Declaring an image gives an identity no other image has, designating a copy of its description; declaring a view gives the identity of the view declared before with the same image, kind, format, swizzle and range, else a new one, and a merged view covers exactly its parts. Queries about an image or a view tell what was declared, a mip level having at least one texel along each axis. The states a graph is given for its inputs and outputs are read back for exactly those subresources.',
  over=['histories', 'inputs'], forall='every sequence of declarations in any graphs sharing their resources, every range, extent and level, every list of parts',
  why='Wrong sharing of an identity only shows when two descriptions differ in the one field that was forgotten; the tests declare views that differ in many.',
  files=['source/RenderGraph/ResourceHandler.cpp', 'source/RenderGraph/FrameGraph.cpp', 'include/RenderGraph/ImageViewData.hpp', 'source/RenderGraph/FramePass.cpp'],
  mech=[('identities', 'ResourceHandler::createImageId, createViewId; FrameGraph::createImage, createView'), ('merged views', 'FramePass::mergeViews'), ('queries', 'getExtent, getMipExtent, getFormat, getImageType, getMipLevels, getArrayLayers'), ('inputs and outputs', 'FrameGraph::addInput, addOutput, getInputLayoutState, getOutputLayoutState, getFinalLayoutState')],
  observe=['identities and descriptions returned', 'layout states returned'],
  note='All functions proved; two defects (views differing only by swizzle shared an identity, mip extents could be 0) were repaired. Assumed: fewer than 2^32 identities, parts of a merged view are non-empty ranges of one image; when levels (or layers) are not merged only the base is specified.')
