From 71a25a1cb2a76d2cb8ffc33b6ce096cf6a89b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 01/19] fix: track the layout of 3D image mips whose depth
 shrinks below one slice

---
 source/RenderGraph/FrameGraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 0ef05c2..4f169a8 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -631,7 +631,7 @@ namespace crg
 				|| range.levelCount == image.data->info.mipLevels ) )
 		{
 			result.baseArrayLayer = 0u;
-			result.layerCount = getExtent( image ).depth >> range.baseMipLevel;
+			result.layerCount = std::max( 1u, getExtent( image ).depth >> range.baseMipLevel );
 		}
 
 		return result;
-- 
2.43.0


From 15d9ff021f73c7944f1bc50099562c356380d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 02/19] fix: give the separate depth and stencil layouts their
 access and stage masks

---
 source/RenderGraph/FrameGraph.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 4f169a8..55ea653 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -414,9 +414,13 @@ namespace crg
 			result |= VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
 			result |= VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_SHADER_READ_ONLY_OPTIMAL:
@@ -521,6 +525,10 @@ namespace crg
 		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_STENCIL_ATTACHMENT_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_STENCIL_READ_ONLY_OPTIMAL:
 		case VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_DEPTH_READ_ONLY_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_ATTACHMENT_OPTIMAL:
+		case VK_IMAGE_LAYOUT_STENCIL_READ_ONLY_OPTIMAL:
 			result |= VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
 			break;
 		case VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL:
-- 
2.43.0


From 78b790d0f5e2aa2b9e5c494411d81a6b7710856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 03/19] fix: report missing resources from an image barrier
 instead of reading through a null cache

---
 source/RenderGraph/RecordContext.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index 4b08707..cdde1b7 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -224,7 +224,8 @@ namespace crg
 		, LayoutState const & wantedState
 		, bool force )
 	{
-		auto range = recctx::adaptRange( *m_resources
+		auto & resources = getResources();
+		auto range = recctx::adaptRange( resources
 				, image.data->info.format
 				, subresourceRange );
 		auto from = getLayoutState( image
@@ -243,7 +244,6 @@ namespace crg
 				|| from.state.pipelineStage != wantedState.state.pipelineStage )
 				&& wantedState.layout != VK_IMAGE_LAYOUT_UNDEFINED ) )
 		{
-			auto & resources = getResources();
 			VkImageMemoryBarrier barrier{ VK_STRUCTURE_TYPE_IMAGE_MEMORY_BARRIER
 				, nullptr
 				, from.state.access
-- 
2.43.0


From e807cd0c0e21163fb7d655aa7fddaddf6e23a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 04/19] fix: synchronise the images sampled by compute passes
 with the compute stage

---
 source/RenderGraph/Attachment.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/Attachment.cpp b/source/RenderGraph/Attachment.cpp
index 00426d3..c3484b4 100644
--- a/source/RenderGraph/Attachment.cpp
+++ b/source/RenderGraph/Attachment.cpp
@@ -392,7 +392,14 @@ namespace crg
 
 		if ( isSampledView() )
 		{
-			result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			if ( isCompute )
+			{
+				result |= VK_PIPELINE_STAGE_COMPUTE_SHADER_BIT;
+			}
+			else
+			{
+				result |= VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT;
+			}
 		}
 		else if ( isTransitionView() )
 		{
-- 
2.43.0


From ac221f74da3ca63b6007f0a58a6b0f6c8a7ab4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 05/19] fix: transition the images of a pass to the access and
 stages of their declared use

---
 source/RenderGraph/RunnablePass.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 1cd5127..c3b7c57 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -397,7 +397,9 @@ namespace crg
 				if ( !attach.isNoTransition()
 					&& ( attach.isSampledView() || attach.isStorageView() || attach.isTransferView() || attach.isTransitionView() ) )
 				{
-					auto needed = makeLayoutState( attach.getImageLayout( m_context.separateDepthStencilLayouts ) );
+					LayoutState needed{ attach.getImageLayout( m_context.separateDepthStencilLayouts )
+						, { attach.getAccessMask()
+							, attach.getPipelineStageFlags( m_callbacks.isComputePass() ) } };
 					auto currentLayout = ( !attach.isInput()
 						? crg::makeLayoutState( VK_IMAGE_LAYOUT_UNDEFINED )
 						: m_graph.getCurrentLayoutState( context, view ) );
-- 
2.43.0


From 100ecf8bb5d63589d20b83bf11c23d487f2434ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 06/19] fix: a fence counts as waited only when the wait
 succeeded

---
 source/RenderGraph/RunnablePass.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index c3b7c57..30ed4fa 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -193,7 +193,7 @@ namespace crg
 				, timeout );
 		}
 
-		m_fenceWaited = true;
+		m_fenceWaited = ( res == VK_SUCCESS );
 		return res;
 	}
 
-- 
2.43.0


From 8cdd1aba2b35c703c3aef847378b3476e5a4db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 07/19] fix: keep every stage mask of a semaphore given several
 times

---
 source/RenderGraph/RunnablePass.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/source/RenderGraph/RunnablePass.cpp b/source/RenderGraph/RunnablePass.cpp
index 30ed4fa..e62ddf5 100644
--- a/source/RenderGraph/RunnablePass.cpp
+++ b/source/RenderGraph/RunnablePass.cpp
@@ -47,13 +47,22 @@ namespace crg
 	{
 		for ( auto & wait : toWait )
 		{
-			if ( wait.semaphore
-				&& semaphores.end() == std::find( semaphores.begin()
-					, semaphores.end()
-					, wait.semaphore ) )
+			if ( wait.semaphore )
 			{
-				semaphores.push_back( wait.semaphore );
-				dstStageMasks.push_back( wait.dstStageMask );
+				auto it = std::find( semaphores.begin()
+					, semaphores.end()
+					, wait.semaphore );
+
+				if ( semaphores.end() == it )
+				{
+					semaphores.push_back( wait.semaphore );
+					dstStageMasks.push_back( wait.dstStageMask );
+				}
+				else
+				{
+					// Already waited for: wait for it at all the requested stages.
+					dstStageMasks[size_t( std::distance( semaphores.begin(), it ) )] |= wait.dstStageMask;
+				}
 			}
 		}
 	}
-- 
2.43.0


From b7660efc9dddf8ce2a8bd9fd79024d8d7b1ec76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:42 +0000
Subject: [PATCH 08/19] fix: convert timestamp ticks with the period of the
 timer's own device

---
 source/RenderGraph/FramePassTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/FramePassTimer.cpp b/source/RenderGraph/FramePassTimer.cpp
index 63962d3..a49e1f0 100644
--- a/source/RenderGraph/FramePassTimer.cpp
+++ b/source/RenderGraph/FramePassTimer.cpp
@@ -126,7 +126,7 @@ namespace crg
 
 	void FramePassTimer::retrieveGpuTime()noexcept
 	{
-		static float const period = m_context.properties.limits.timestampPeriod;
+		float const period = m_context.properties.limits.timestampPeriod;
 
 		auto before = Clock::now();
 		m_gpuTime = 0ns;
@@ -143,7 +143,7 @@ namespace crg
 				, sizeof( uint64_t )
 				, VK_QUERY_RESULT_WAIT_BIT | VK_QUERY_RESULT_64_BIT );
 
-			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) / period ) };
+			auto gpuTime = Nanoseconds{ uint64_t( float( values[1] - values[0] ) * period ) };
 			m_gpuTime += gpuTime;
 
 			query.started = false;
-- 
2.43.0


From dcd862b4c1e04c41c43f031334f8ba2fa3ac34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:20 +0000
Subject: [PATCH 09/19] fix: blit regions end at their offset plus their extent

---
 source/RenderGraph/RecordContext.cpp            |  4 ++--
 source/RenderGraph/RunnablePasses/ImageBlit.cpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/RenderGraph/RecordContext.cpp b/source/RenderGraph/RecordContext.cpp
index cdde1b7..8342175 100644
--- a/source/RenderGraph/RecordContext.cpp
+++ b/source/RenderGraph/RecordContext.cpp
@@ -452,10 +452,10 @@ namespace crg
 			auto & dstSubresource = dstView.data->info.subresourceRange;
 			VkImageBlit region{ VkImageSubresourceLayers{ srcSubresource.aspectMask, srcSubresource.baseMipLevel, srcSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ srcOffset.x, srcOffset.y, 0u }
-					, VkOffset3D{ int32_t( srcExtent.width ), int32_t( srcExtent.height ), 1 } }
+					, VkOffset3D{ srcOffset.x + int32_t( srcExtent.width ), srcOffset.y + int32_t( srcExtent.height ), 1 } }
 				, VkImageSubresourceLayers{ dstSubresource.aspectMask, dstSubresource.baseMipLevel, dstSubresource.baseArrayLayer, 1u }
 				, { VkOffset3D{ dstOffset.x, dstOffset.y, 0u }
-					, VkOffset3D{ int32_t( dstExtent.width ), int32_t( dstExtent.height ), 1 } } };
+					, VkOffset3D{ dstOffset.x + int32_t( dstExtent.width ), dstOffset.y + int32_t( dstExtent.height ), 1 } } };
 			recContext.memoryBarrier( commandBuffer
 				, srcView.data->image
 				, srcView.data->info.viewType
diff --git a/source/RenderGraph/RunnablePasses/ImageBlit.cpp b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
index f6de0e2..7c5d2cb 100644
--- a/source/RenderGraph/RunnablePasses/ImageBlit.cpp
+++ b/source/RenderGraph/RunnablePasses/ImageBlit.cpp
@@ -21,6 +21,14 @@ namespace crg
 				, range.baseArrayLayer
 				, range.layerCount };
 		}
+
+		static VkOffset3D getEnd( VkOffset3D const & offset
+			, VkExtent3D const & size )
+		{
+			return VkOffset3D{ offset.x + int32_t( size.width )
+				, offset.y + int32_t( size.height )
+				, offset.z + int32_t( size.depth ) };
+		}
 	}
 
 	ImageBlit::ImageBlit( FramePass const & pass
@@ -61,9 +69,9 @@ namespace crg
 		auto srcImage{ m_graph.createImage( srcAttach.data->image ) };
 		auto dstImage{ m_graph.createImage( dstAttach.data->image ) };
 		VkImageBlit blitRegion{ imgBlit::convert( srcAttach.data->info.subresourceRange )
-			, { m_srcOffset, VkOffset3D{ int32_t( m_srcSize.width ), int32_t( m_srcSize.height ), int32_t( m_srcSize.depth ) } }
+			, { m_srcOffset, imgBlit::getEnd( m_srcOffset, m_srcSize ) }
 			, imgBlit::convert( dstAttach.data->info.subresourceRange )
-			, { m_dstOffset, VkOffset3D{ int32_t( m_dstSize.width ), int32_t( m_dstSize.height ), int32_t( m_dstSize.depth ) } } };
+			, { m_dstOffset, imgBlit::getEnd( m_dstOffset, m_dstSize ) } };
 		context->vkCmdBlitImage( commandBuffer
 			, srcImage
 			, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
-- 
2.43.0


From 61b8309553e3e0422783fb1105f947d374e5e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 10/19] fix: dispatches take each axis' group count from its
 own callback

---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index e872569..68e39ee 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -96,8 +96,8 @@ namespace crg
 		{
 			context->vkCmdDispatch( commandBuffer
 				, ( m_cpConfig.getGroupCountX ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountX )
-				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountY )
-				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountX )() : m_cpConfig.groupCountZ ) );
+				, ( m_cpConfig.getGroupCountY ? ( *m_cpConfig.getGroupCountY )() : m_cpConfig.groupCountY )
+				, ( m_cpConfig.getGroupCountZ ? ( *m_cpConfig.getGroupCountZ )() : m_cpConfig.groupCountZ ) );
 		}
 
 		m_cpConfig.end( context, commandBuffer, index );
-- 
2.43.0


From cefc0e50b22d5716e1d4023c570f83752b7c0e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:09 +0000
Subject: [PATCH 11/19] fix: a dispatch sharing its program creates its
 pipeline once

With a single program, every further instance created another pipeline in the
shared slot and the former one was never destroyed.
---
 source/RenderGraph/RunnablePasses/ComputePass.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/ComputePass.cpp b/source/RenderGraph/RunnablePasses/ComputePass.cpp
index 68e39ee..d36dc31 100644
--- a/source/RenderGraph/RunnablePasses/ComputePass.cpp
+++ b/source/RenderGraph/RunnablePasses/ComputePass.cpp
@@ -105,6 +105,11 @@ namespace crg
 
 	void ComputePass::doCreatePipeline( uint32_t index )
 	{
+		if ( m_pipeline.getPipeline( index ) )
+		{
+			return;
+		}
+
 		auto & program = m_pipeline.getProgram( index );
 		VkComputePipelineCreateInfo createInfo{ VK_STRUCTURE_TYPE_COMPUTE_PIPELINE_CREATE_INFO
 			, nullptr
-- 
2.43.0


From ceb2c8e180e5e1ff536b4069c79673c88bc8e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 12/19] fix: render areas use the view of the instance, at
 least one texel wide

---
 source/RenderGraph/RunnablePasses/RenderPassHolder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
index 92378b1..ffaf1a4 100644
--- a/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
+++ b/source/RenderGraph/RunnablePasses/RenderPassHolder.cpp
@@ -362,12 +362,13 @@ namespace crg
 				|| attach.isDepthAttach()
 				|| attach.isStencilAttach() )
 			{
-				auto view = attach.view();
+				auto view = attach.view( index );
+				auto mipLevel = view.data->info.subresourceRange.baseMipLevel;
 				m_passes[index].attachments.push_back( &attach );
 				width = std::max( width
-					, view.data->image.data->info.extent.width >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.width >> mipLevel ) );
 				height = std::max( height
-					, view.data->image.data->info.extent.height >> view.data->info.subresourceRange.baseMipLevel );
+					, std::max( 1u, view.data->image.data->info.extent.height >> mipLevel ) );
 				m_layers = std::max( m_layers
 					, view.data->info.subresourceRange.layerCount );
 			}
-- 
2.43.0


From d9daeff88367b170eb458955d7cf3e42b62c1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 13/19] fix: a cache owns the images it creates for its views

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index bada67f..ebecdfa 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -554,6 +554,8 @@ namespace crg
 
 	VkImageView ContextResourcesCache::createImageView( ImageViewId const & view )
 	{
+		// Creating the view may create its image, which then has to belong to this cache.
+		createImage( view.data->image );
 		auto [result, created] = m_handler.createImageView( m_context, view );
 
 		if ( created )
-- 
2.43.0


From 6b94b8e250cf963ccd37648a0381c42b26b4dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:15 +0000
Subject: [PATCH 14/19] fix: a cache forgets the images and views it destroyed

---
 source/RenderGraph/ResourceHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index ebecdfa..3a2305e 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -574,6 +574,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImage( m_context, imageId );
+			m_images.erase( it );
 		}
 
 		return result;
@@ -587,6 +588,7 @@ namespace crg
 		if ( result )
 		{
 			m_handler.destroyImageView( m_context, viewId );
+			m_imageViews.erase( it );
 		}
 
 		return result;
-- 
2.43.0


From 0d6590017e95bc67887755f2f34ae416e935546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:33 +0000
Subject: [PATCH 15/19] fix: a failed creation is neither leaked nor remembered

---
 source/RenderGraph/ResourceHandler.cpp | 152 +++++++++++++++----------
 1 file changed, 90 insertions(+), 62 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index 3a2305e..f852edf 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -89,6 +89,20 @@ namespace crg
 			return result;
 		}
 
+		static void destroy( GraphContext const & context
+			, std::pair< VkImage, VkDeviceMemory > const & image )
+		{
+			if ( context.vkFreeMemory && image.second )
+			{
+				context.vkFreeMemory( context.device, image.second, context.allocator );
+			}
+
+			if ( context.vkDestroyImage && image.first )
+			{
+				context.vkDestroyImage( context.device, image.first, context.allocator );
+			}
+		}
+
 		static size_t makeHash( bool texCoords
 			, Texcoord const & config )
 		{
@@ -186,44 +200,56 @@ namespace crg
 
 			if ( ins )
 			{
-				// Create image
-				auto createInfo = reshdl::convert( *imageId.data );
-				auto res = context.vkCreateImage( context.device
-					, &createInfo
-					, context.allocator
-					, &it->second.first );
-				auto image = it->second.first;
-				checkVkResult( res, "Image creation" );
-				crgRegisterObjectName( context, imageId.data->name, image );
-
-				if ( context.device )
+				try
 				{
-					// Create Image memory
-					VkMemoryRequirements requirements{};
-					context.vkGetImageMemoryRequirements( context.device
-						, image
-						, &requirements );
-					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-						, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
-					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
-						, nullptr
-						, requirements.size
-						, deduced };
-					res = context.vkAllocateMemory( context.device
-						, &allocateInfo
+					// Create image
+					auto createInfo = reshdl::convert( *imageId.data );
+					VkImage image{};
+					auto res = context.vkCreateImage( context.device
+						, &createInfo
 						, context.allocator
-						, &it->second.second );
-					auto memory = it->second.second;
-					checkVkResult( res, "Image memory allocation" );
-					crgRegisterObjectName( context, imageId.data->name, memory );
-
-					// Bind image and memory
-					res = context.vkBindImageMemory( context.device
-						, image
-						, memory
-						, 0u );
-					checkVkResult( res, "Image memory binding" );
-					created = true;
+						, &image );
+					checkVkResult( res, "Image creation" );
+					it->second.first = image;
+					crgRegisterObjectName( context, imageId.data->name, image );
+
+					if ( context.device )
+					{
+						// Create Image memory
+						VkMemoryRequirements requirements{};
+						context.vkGetImageMemoryRequirements( context.device
+							, image
+							, &requirements );
+						uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+							, VK_MEMORY_PROPERTY_DEVICE_LOCAL_BIT );
+						VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
+							, nullptr
+							, requirements.size
+							, deduced };
+						VkDeviceMemory memory{};
+						res = context.vkAllocateMemory( context.device
+							, &allocateInfo
+							, context.allocator
+							, &memory );
+						checkVkResult( res, "Image memory allocation" );
+						it->second.second = memory;
+						crgRegisterObjectName( context, imageId.data->name, memory );
+
+						// Bind image and memory
+						res = context.vkBindImageMemory( context.device
+							, image
+							, memory
+							, 0u );
+						checkVkResult( res, "Image memory binding" );
+						created = true;
+					}
+				}
+				catch ( ... )
+				{
+					// A failed creation must neither leak nor be remembered.
+					reshdl::destroy( context, it->second );
+					m_images.erase( it );
+					throw;
 				}
 			}
 
@@ -246,15 +272,24 @@ namespace crg
 
 			if ( ins )
 			{
-				auto image = createImage( context, view.data->image ).first;
-				auto createInfo = reshdl::convert( *view.data, image );
-				auto res = context.vkCreateImageView( context.device
-					, &createInfo
-					, context.allocator
-					, &it->second );
-				checkVkResult( res, "ImageView creation" );
-				crgRegisterObjectName( context, view.data->name, it->second );
-				created = true;
+				try
+				{
+					auto image = createImage( context, view.data->image ).first;
+					auto createInfo = reshdl::convert( *view.data, image );
+					auto res = context.vkCreateImageView( context.device
+						, &createInfo
+						, context.allocator
+						, &it->second );
+					checkVkResult( res, "ImageView creation" );
+					crgRegisterObjectName( context, view.data->name, it->second );
+					created = true;
+				}
+				catch ( ... )
+				{
+					// A failed creation must not be remembered.
+					m_imageViews.erase( it );
+					throw;
+				}
 			}
 
 			result = { it->second, created };
@@ -294,8 +329,8 @@ namespace crg
 				, &createInfo
 				, context.allocator
 				, &result );
-			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			checkVkResult( res, "Sampler creation" );
+			auto & sampler = m_samplers.try_emplace( result, Sampler{ result, {} } ).first->second;
 			sampler.name = "Sampler_" + suffix;
 			crgRegisterObject( context, sampler.name, result );
 		}
@@ -422,16 +457,7 @@ namespace crg
 
 		if ( it != m_images.end() )
 		{
-			if ( context.vkFreeMemory && it->second.second )
-			{
-				context.vkFreeMemory( context.device, it->second.second, context.allocator );
-			}
-
-			if ( context.vkDestroyImage && it->second.first )
-			{
-				context.vkDestroyImage( context.device, it->second.first, context.allocator );
-			}
-
+			reshdl::destroy( context, it->second );
 			m_images.erase( it );
 		}
 	}
@@ -597,13 +623,14 @@ namespace crg
 	VkSampler ContextResourcesCache::createSampler( SamplerDesc const & samplerDesc )
 	{
 		auto hash = reshdl::makeHash( samplerDesc );
-		auto [it, res] = m_samplers.try_emplace( hash, VkSampler{} );
+		auto it = m_samplers.find( hash );
 
-		if ( res )
+		if ( it == m_samplers.end() )
 		{
-			it->second = m_handler.createSampler( m_context
+			auto sampler = m_handler.createSampler( m_context
 				, std::to_string( hash )
 				, samplerDesc );
+			it = m_samplers.try_emplace( hash, sampler ).first;
 		}
 
 		return it->second;
@@ -613,14 +640,15 @@ namespace crg
 		, Texcoord const & config )
 	{
 		auto hash = reshdl::makeHash( texCoords, config );
-		auto [it, res] = m_vertexBuffers.emplace( hash, nullptr );
+		auto it = m_vertexBuffers.find( hash );
 
-		if ( res )
+		if ( it == m_vertexBuffers.end() )
 		{
-			it->second = m_handler.createQuadTriVertexBuffer( m_context
+			auto buffer = m_handler.createQuadTriVertexBuffer( m_context
 				, std::to_string( hash )
 				, texCoords
 				, config );
+			it = m_vertexBuffers.try_emplace( hash, buffer ).first;
 		}
 
 		return *it->second;
-- 
2.43.0


From f5a22ea6802993d998fde7afc5b64392286530b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:30 +0000
Subject: [PATCH 16/19] fix: a failed vertex buffer creation releases what it
 made

---
 source/RenderGraph/ResourceHandler.cpp | 208 +++++++++++++------------
 1 file changed, 112 insertions(+), 96 deletions(-)

diff --git a/source/RenderGraph/ResourceHandler.cpp b/source/RenderGraph/ResourceHandler.cpp
index f852edf..b95286f 100644
--- a/source/RenderGraph/ResourceHandler.cpp
+++ b/source/RenderGraph/ResourceHandler.cpp
@@ -103,6 +103,26 @@ namespace crg
 			}
 		}
 
+		static void destroy( GraphContext & context
+			, VertexBuffer const & vertexBuffer )
+		{
+			if ( context.vkFreeMemory && vertexBuffer.memory )
+			{
+				crgUnregisterObject( context, vertexBuffer.memory );
+				context.vkFreeMemory( context.device
+					, vertexBuffer.memory
+					, context.allocator );
+			}
+
+			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
+			{
+				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
+				context.vkDestroyBuffer( context.device
+					, vertexBuffer.buffer.buffer()
+					, context.allocator );
+			}
+		}
+
 		static size_t makeHash( bool texCoords
 			, Texcoord const & config )
 		{
@@ -350,97 +370,109 @@ namespace crg
 		{
 			auto result = std::make_unique< VertexBuffer >();
 			vertexBuffer = result.get();
-			VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
-				, nullptr
-				, 0u
-				, 3u * sizeof( reshdl::Quad::Vertex )
-				, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT
-				, VK_SHARING_MODE_EXCLUSIVE
-				, 0u
-				, nullptr };
-			auto res = context.vkCreateBuffer( context.device
-				, &createInfo
-				, context.allocator
-				, &vertexBuffer->buffer.buffer() );
-			checkVkResult( res, "Vertex buffer creation" );
-			crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
-
-			if ( context.device )
+			try
 			{
-				VkMemoryRequirements requirements{};
-				context.vkGetBufferMemoryRequirements( context.device
-					, vertexBuffer->buffer.buffer()
-					, &requirements );
-				uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
-					, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
-				VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
+				VkBufferCreateInfo createInfo{ VK_STRUCTURE_TYPE_BUFFER_CREATE_INFO
 					, nullptr
-					, requirements.size
-					, deduced };
-				res = context.vkAllocateMemory( context.device
-					, &allocateInfo
-					, context.allocator
-					, &vertexBuffer->memory );
-				checkVkResult( res, "Buffer memory allocation" );
-				crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
-
-				res = context.vkBindBufferMemory( context.device
-					, vertexBuffer->buffer.buffer()
-					, vertexBuffer->memory
-					, 0u );
-				checkVkResult( res, "Buffer memory binding" );
-
-				reshdl::Quad::Vertex * buffer{};
-				res = context.vkMapMemory( context.device
-					, vertexBuffer->memory
 					, 0u
-					, VK_WHOLE_SIZE
+					, 3u * sizeof( reshdl::Quad::Vertex )
+					, VK_BUFFER_USAGE_VERTEX_BUFFER_BIT
+					, VK_SHARING_MODE_EXCLUSIVE
 					, 0u
-					, reinterpret_cast< void ** >( &buffer ) );
-				checkVkResult( res, "Buffer memory mapping" );
+					, nullptr };
+				VkBuffer created{};
+				auto res = context.vkCreateBuffer( context.device
+					, &createInfo
+					, context.allocator
+					, &created );
+				checkVkResult( res, "Vertex buffer creation" );
+				vertexBuffer->buffer.buffer() = created;
+				crgRegisterObject( context, "QuadVertexBuffer_" + suffix, vertexBuffer->buffer.buffer() );
 
-				if ( buffer )
+				if ( context.device )
 				{
-					auto rangeU = 1.0;
-					auto minU = 0.0;
-					auto maxU = minU + 2.0 * rangeU;
-					auto rangeV = 1.0;
-					auto minV = -rangeV;
-					auto maxV = minV + 2.0 * rangeV;
-					auto realMinU = float( config.invertU ? maxU : minU );
-					auto realMaxU = float( config.invertU ? minU : maxU );
-					auto realMinV = float( config.invertV ? maxV : minV );
-					auto realMaxV = float( config.invertV ? minV : maxV );
-					std::array<reshdl::Quad::Vertex, 3u > vertexData
-					{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
-						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
-					, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
-					std::copy( vertexData.begin(), vertexData.end(), buffer );
-
-					VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+					VkMemoryRequirements requirements{};
+					context.vkGetBufferMemoryRequirements( context.device
+						, vertexBuffer->buffer.buffer()
+						, &requirements );
+					uint32_t deduced = context.deduceMemoryType( requirements.memoryTypeBits
+						, VK_MEMORY_PROPERTY_HOST_VISIBLE_BIT );
+					VkMemoryAllocateInfo allocateInfo{ VK_STRUCTURE_TYPE_MEMORY_ALLOCATE_INFO
 						, nullptr
+						, requirements.size
+						, deduced };
+					VkDeviceMemory allocated{};
+					res = context.vkAllocateMemory( context.device
+						, &allocateInfo
+						, context.allocator
+						, &allocated );
+					checkVkResult( res, "Buffer memory allocation" );
+					vertexBuffer->memory = allocated;
+					crgRegisterObject( context, "QuadVertexMemory_" + suffix, vertexBuffer->memory );
+
+					res = context.vkBindBufferMemory( context.device
+						, vertexBuffer->buffer.buffer()
+						, vertexBuffer->memory
+						, 0u );
+					checkVkResult( res, "Buffer memory binding" );
+
+					reshdl::Quad::Vertex * buffer{};
+					res = context.vkMapMemory( context.device
 						, vertexBuffer->memory
 						, 0u
-						, VK_WHOLE_SIZE };
-					context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
-					context.vkUnmapMemory( context.device, vertexBuffer->memory );
-				}
+						, VK_WHOLE_SIZE
+						, 0u
+						, reinterpret_cast< void ** >( &buffer ) );
+					checkVkResult( res, "Buffer memory mapping" );
 
-				vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
+					if ( buffer )
+					{
+						auto rangeU = 1.0;
+						auto minU = 0.0;
+						auto maxU = minU + 2.0 * rangeU;
+						auto rangeV = 1.0;
+						auto minV = -rangeV;
+						auto maxV = minV + 2.0 * rangeV;
+						auto realMinU = float( config.invertU ? maxU : minU );
+						auto realMaxU = float( config.invertU ? minU : maxU );
+						auto realMinV = float( config.invertV ? maxV : minV );
+						auto realMaxV = float( config.invertV ? minV : maxV );
+						std::array<reshdl::Quad::Vertex, 3u > vertexData
+						{ reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, -3.0f }, reshdl::Quad::Data{ realMinU, realMinV } }
+							, reshdl::Quad::Vertex{ reshdl::Quad::Data{ -1.0f, +1.0f }, reshdl::Quad::Data{ realMinU, realMaxV } }
+						, reshdl::Quad::Vertex{ reshdl::Quad::Data{ +3.0f, +1.0f }, reshdl::Quad::Data{ realMaxU, realMaxV } } };
+						std::copy( vertexData.begin(), vertexData.end(), buffer );
+
+						VkMappedMemoryRange memoryRange{ VK_STRUCTURE_TYPE_MAPPED_MEMORY_RANGE
+							, nullptr
+							, vertexBuffer->memory
+							, 0u
+							, VK_WHOLE_SIZE };
+						context.vkFlushMappedMemoryRanges( context.device, 1u, &memoryRange );
+						context.vkUnmapMemory( context.device, vertexBuffer->memory );
+					}
 
-				if ( texCoords )
-				{
-					vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
-				}
+					vertexBuffer->vertexAttribs.push_back( { 0u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, position ) } );
 
-				vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
-				vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
-					, nullptr
-					, 0u
-					, uint32_t( vertexBuffer->vertexBindings.size() )
-					, vertexBuffer->vertexBindings.data()
-					, uint32_t( vertexBuffer->vertexAttribs.size() )
-					, vertexBuffer->vertexAttribs.data() };
+					if ( texCoords )
+					{
+						vertexBuffer->vertexAttribs.push_back( { 1u, 0u, VK_FORMAT_R32G32_SFLOAT, offsetof( reshdl::Quad::Vertex, texture ) } );
+					}
+
+					vertexBuffer->vertexBindings.push_back( { 0u, sizeof( reshdl::Quad::Vertex ), VK_VERTEX_INPUT_RATE_VERTEX } );
+					vertexBuffer->inputState = VkPipelineVertexInputStateCreateInfo{ VK_STRUCTURE_TYPE_PIPELINE_VERTEX_INPUT_STATE_CREATE_INFO
+						, nullptr
+						, 0u
+						, uint32_t( vertexBuffer->vertexBindings.size() )
+						, vertexBuffer->vertexBindings.data()
+						, uint32_t( vertexBuffer->vertexAttribs.size() )
+						, vertexBuffer->vertexAttribs.data() };
+				}
+			}
+			catch ( ... )
+			{
+				reshdl::destroy( context, *vertexBuffer );
+				throw;
 			}
 
 			m_vertexBuffers.emplace( std::move( result ) );
@@ -512,23 +544,7 @@ namespace crg
 
 		if ( it != m_vertexBuffers.end() )
 		{
-			auto & vertexBuffer = **it;
-
-			if ( context.vkFreeMemory && vertexBuffer.memory )
-			{
-				crgUnregisterObject( context, vertexBuffer.memory );
-				context.vkFreeMemory( context.device
-					, vertexBuffer.memory
-					, context.allocator );
-			}
-
-			if ( context.vkDestroyBuffer && vertexBuffer.buffer.buffer() )
-			{
-				crgUnregisterObject( context, vertexBuffer.buffer.buffer() );
-				context.vkDestroyBuffer( context.device
-					, vertexBuffer.buffer.buffer()
-					, context.allocator );
-			}
+			reshdl::destroy( context, **it );
 
 			m_vertexBuffers.erase( it );
 		}
-- 
2.43.0


From e8d90814e64f9a5046ca4709edc29a31521d13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:02 +0000
Subject: [PATCH 17/19] fix: generating the mips of an image with one level
 leaves it as wanted next

---
 source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
index 51660dd..630c70c 100644
--- a/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
+++ b/source/RenderGraph/RunnablePasses/GenerateMipmaps.cpp
@@ -162,6 +162,16 @@ namespace crg
 							, getStageMask( VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL ) } );
 				}
 			}
+
+			if ( mipLevels == 1u )
+			{
+				// Nothing was generated, transition the only mip level to wanted output layout
+				context.memoryBarrier( commandBuffer
+					, imageId
+					, { aspectMask, 0u, 1u, layer, 1u }
+					, VK_IMAGE_LAYOUT_TRANSFER_SRC_OPTIMAL
+					, nextLayoutState );
+			}
 		}
 	}
 }
-- 
2.43.0


From b5828f0e3b9de38fce2a983bebcdd3710efe82a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:53 +0000
Subject: [PATCH 18/19] fix: views that differ only by their swizzle do not
 share an identity

---
 include/RenderGraph/ImageViewData.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/RenderGraph/ImageViewData.hpp b/include/RenderGraph/ImageViewData.hpp
index 4e28351..abca5ee 100644
--- a/include/RenderGraph/ImageViewData.hpp
+++ b/include/RenderGraph/ImageViewData.hpp
@@ -48,11 +48,20 @@ namespace crg
 			&& lhs.levelCount == rhs.levelCount;
 	}
 
+	inline bool operator==( VkComponentMapping const & lhs, VkComponentMapping const & rhs )
+	{
+		return lhs.r == rhs.r
+			&& lhs.g == rhs.g
+			&& lhs.b == rhs.b
+			&& lhs.a == rhs.a;
+	}
+
 	inline bool operator==( VkImageViewCreateInfo const & lhs, VkImageViewCreateInfo const & rhs )
 	{
 		return lhs.flags == rhs.flags
 			&& lhs.viewType == rhs.viewType
 			&& lhs.format == rhs.format
+			&& lhs.components == rhs.components
 			&& lhs.subresourceRange == rhs.subresourceRange;
 	}
 
-- 
2.43.0


From c19ab4169038a29fb5ab2ecbd9805c8504e9a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:53 +0000
Subject: [PATCH 19/19] fix: the mip extent of a view has at least one texel
 along each axis

---
 source/RenderGraph/FrameGraph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RenderGraph/FrameGraph.cpp b/source/RenderGraph/FrameGraph.cpp
index 55ea653..e1c3036 100644
--- a/source/RenderGraph/FrameGraph.cpp
+++ b/source/RenderGraph/FrameGraph.cpp
@@ -354,9 +354,9 @@ namespace crg
 	VkExtent3D getMipExtent( ImageViewId const & image )
 	{
 		auto result = getExtent( image.data->image );
-		result.width >>= image.data->info.subresourceRange.baseMipLevel;
-		result.height >>= image.data->info.subresourceRange.baseMipLevel;
-		result.depth >>= image.data->info.subresourceRange.baseMipLevel;
+		result.width = std::max( 1u, result.width >> image.data->info.subresourceRange.baseMipLevel );
+		result.height = std::max( 1u, result.height >> image.data->info.subresourceRange.baseMipLevel );
+		result.depth = std::max( 1u, result.depth >> image.data->info.subresourceRange.baseMipLevel );
 		return result;
 	}
 
-- 
2.43.0

