// Clients of the library's public interface.  Each only composes calls into the real code (a returned action is run at once),
// so that what it observes can be stated as a contract; none contains logic of its own.
#include <RenderGraph/RecordContext.hpp>
#include <RenderGraph/Attachment.hpp>
namespace crgv
{
	void copyImage( crg::RecordContext & context, VkCommandBuffer commandBuffer, uint32_t index
		, crg::ImageViewId src, crg::ImageViewId dst, VkExtent2D extent, VkImageLayout finalLayout )
	{
		crg::RecordContext::copyImage( src, dst, extent, finalLayout )( context, commandBuffer, index );
	}
	void blitImage( crg::RecordContext & context, VkCommandBuffer commandBuffer, uint32_t index
		, crg::ImageViewId src, crg::ImageViewId dst, VkOffset2D srcOffset, VkExtent2D srcExtent, VkOffset2D dstOffset, VkExtent2D dstExtent, VkFilter filter, VkImageLayout finalLayout )
	{
		crg::RecordContext::blitImage( src, dst, srcOffset, srcExtent, dstOffset, dstExtent, filter, finalLayout )( context, commandBuffer, index );
	}
	void clearAttachment( crg::RecordContext & context, VkCommandBuffer commandBuffer, uint32_t index
		, crg::Attachment attach, VkImageLayout finalLayout )
	{
		crg::RecordContext::clearAttachment( attach, finalLayout )( context, commandBuffer, index );
	}
	void clearView( crg::RecordContext & context, VkCommandBuffer commandBuffer, uint32_t index
		, crg::ImageViewId view, VkClearValue value, VkImageLayout finalLayout )
	{
		crg::RecordContext::clearAttachment( view, value, finalLayout )( context, commandBuffer, index );
	}
}
