// Explicit instantiations of the library's templates, so that their bodies are available to the verifier.
// Contains no code of its own.
#include <RenderGraph/FramePass.hpp>
#include <RenderGraph/FrameGraph.hpp>
#include <RenderGraph/ImageData.hpp>
#include <RenderGraph/ImageViewData.hpp>
namespace crg
{
#define CRGV_ADD( K, V, ... ) template void FramePass::add##K##View< V >( V __VA_ARGS__ )
#define CRGV_IN( K ) CRGV_ADD( K, ImageViewId ); CRGV_ADD( K, ImageViewIdArray )
#define CRGV_OUT( K ) CRGV_ADD( K, ImageViewId, , VkClearValue ); CRGV_ADD( K, ImageViewIdArray, , VkClearValue )
	CRGV_IN( InputColour ); CRGV_OUT( OutputColour ); CRGV_ADD( InOutColour, ImageViewId, , VkPipelineColorBlendAttachmentState ); CRGV_ADD( InOutColour, ImageViewIdArray, , VkPipelineColorBlendAttachmentState );
	CRGV_IN( InputDepth ); CRGV_IN( InOutDepth ); CRGV_OUT( OutputDepth );
	CRGV_IN( InputStencil ); CRGV_IN( InOutStencil ); CRGV_OUT( OutputStencil );
	CRGV_IN( InputDepthStencil ); CRGV_IN( InOutDepthStencil ); CRGV_OUT( OutputDepthStencil );
}
